// products of big integers
#include "bigint.h"
using namespace drv;
void run()
{
   while ( time_left() )
   {
      guard();
      const auto p = numbers();
      const Z a = p.first, b = p.second;
      begin("a = " + str(a) + ", b = " + str(b));
      const BigInteger x = big(a), y = big(b);
      result(x * y, a * b, "a * b");
      { BigInteger t = x; t *= y; result(t, a * b, "a *= b"); const Z c = number(); t *= big(c); result(t, a * b * c, "(a *= b) *= c"); }
      { BigInteger t = x; t *= t; result(t, a * a, "a *= a (same object)"); }
      result(y, b, "operand b after the operations");
   }
}
