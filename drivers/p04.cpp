// order, construction and conversion of big integers
#include "bigint.h"
#include <stdexcept>
using namespace drv;
template <typename T> void built(T v) { result(BigInteger(v), Z(v), "constructed value"); }
void run()
{
   while ( time_left() )
   {
      guard();
      const auto p = numbers();
      const Z a = p.first, b = p.second;
      static const int ints[] = {0, 1, -1, 2, -2, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 65536, -65536};
      int i = coin() ? ints[rnd(0, 10)] : static_cast<int>(rnd(INT32_MIN, INT32_MAX));
      Z c = coin(3) ? a : Z(i) + rnd(-1, 1);
      if ( coin(4) ) c = Z(i) + (Z(1) << 64) * rnd(-1, 1) + (Z(1) << 32) * rnd(-1, 1);
      begin("a = " + str(a) + ", b = " + str(b) + ", c = " + str(c) + ", int = " + std::to_string(i));
      const BigInteger x = big(a), y = big(b), w = big(c);
      same(x == y, a == b, "a == b"); same(x != y, a != b, "a != b"); same(x < y, a < b, "a < b");
      same(x > y, a > b, "a > b"); same(x <= y, a <= b, "a <= b"); same(x >= y, a >= b, "a >= b");
      same(w == i, c == i, "c == int"); same(w != i, c != i, "c != int"); same(w < i, c < i, "c < int");
      same(w > i, c > i, "c > int"); same(w <= i, c <= i, "c <= int"); same(w >= i, c >= i, "c >= int");
      bool raised = false; int got = 0;
      try { got = static_cast<int>(w); } catch ( const std::invalid_argument& ) { raised = true; }
      expect(raised == (c < INT32_MIN || c > INT32_MAX), "conversion to int raises exactly when the value does not fit");
      if ( !raised ) same(Z(got), c, "conversion to int");
      built<int>(i); built<short>(static_cast<short>(i)); built<unsigned short>(static_cast<unsigned short>(i)); built<unsigned>(static_cast<unsigned>(i));
      const long l = coin(8) ? INT64_MIN : static_cast<long>(digit());
      built<long>(l); built<unsigned long>(static_cast<unsigned long>(l));
      result(BigInteger(), 0, "default value");
   }
}
