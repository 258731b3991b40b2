// quotients (rounded towards zero) and least non-negative remainders of big integers
#include "bigint.h"
#include <stdexcept>
using namespace drv;
void run()
{
   while ( time_left() )
   {
      guard();
      const auto p = numbers();
      const Z a = p.first, b = p.second;
      begin("a = " + str(a) + ", b = " + str(b));
      const BigInteger x = big(a), y = big(b);
      bool raised = false;
      BigInteger q, r;
      try { q = x / y; } catch ( const std::invalid_argument& ) { raised = true; }
      expect(raised == (b == 0), "division raises exactly for divisor zero");
      if ( !raised )
      {
         result(q, a / b, "a / b");
         BigInteger t = x; t /= y; result(t, a / b, "a /= b");
      }
      else
      {
         BigInteger t = x;
         try { t /= y; expect(false, "a /= 0 raises"); } catch ( const std::invalid_argument& ) {}
         result(t, a, "a after a /= 0");
      }
      raised = false;
      try { r = x % y; } catch ( const std::invalid_argument& ) { raised = true; }
      expect(raised == (b <= 0), "modulo raises exactly for moduli that are not positive");
      if ( !raised )
      {
         Z w = a % b; if ( w < 0 ) w += b;
         result(r, w, "a % b");
         BigInteger t = x; t %= y; result(t, w, "a %= b");
      }
      if ( a != 0 ) { BigInteger t = x; t /= t; result(t, 1, "a /= a (same object)"); }
      if ( a > 0 ) { BigInteger t = x; t %= t; result(t, 0, "a %= a (same object)"); }
      result(y, b, "operand b after the operations");
   }
}
