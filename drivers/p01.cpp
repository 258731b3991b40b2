// sums, differences, negation and absolute value of big integers
#include "bigint.h"
using namespace drv;
void run()
{
   while ( time_left() )
   {
      guard();
      const auto p = numbers();
      const Z a = p.first, b = p.second;
      begin("a = " + str(a) + ", b = " + str(b));
      const BigInteger x = big(a), y = big(b);
      result(x + y, a + b, "a + b");
      result(x - y, a - b, "a - b");
      { BigInteger t = x; result(t += y, a + b, "a += b"); result(t -= y, a, "(a += b) -= b"); }
      { BigInteger t = x; t -= y; result(t, a - b, "a -= b"); t += y; result(t, a, "(a -= b) += b"); }
      { BigInteger t = x; t += t; result(t, a + a, "a += a (same object)"); t -= t; result(t, 0, "a -= a (same object)"); }
      result(-x, -a, "-a");
      result(abs(x), a < 0 ? Z(-a) : a, "abs(a)");
      result(y, b, "operand b after the operations");
      // a chain of operations
      BigInteger s = x; Z t = a;
      for ( int i = 0; i < 4; ++i ) { const Z c = number(); if ( coin() ) { s += big(c); t += c; } else { s -= big(c); t -= c; } }
      result(s, t, "chain of += and -=");
   }
}
