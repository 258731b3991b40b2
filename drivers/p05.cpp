// the checked 64 bit integer: every operation yields the exact value or raises std::invalid_argument
#include "common.h"
#define private public
#include "algorithm_integer_operations.h"
#include "safe_integer.h"
#undef private
using panda::SafeInteger;
using namespace drv;
namespace
{
   const Z MX = Z(INT64_MAX), MN = Z(INT64_MIN);
   bool rep(const Z& z) { return MN <= z && z <= MX; }
   std::int64_t value()
   {
      static const std::vector<std::int64_t> special{0, 1, -1, 2, -2, 3, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, 3037000499, 3037000500, -3037000500, std::int64_t(1) << 32, std::int64_t(1) << 62, -(std::int64_t(1) << 62), INT64_MAX / 2, INT64_MAX / 3, INT64_MIN / 3};
      switch ( rnd(0, 4) )
      {
         case 0: return special[rnd(0, special.size() - 1)];
         case 1: { const std::int64_t v = special[rnd(0, special.size() - 1)]; const long d = rnd(-3, 3); return (d > 0 && v > INT64_MAX - d) || (d < 0 && v < INT64_MIN - d) ? v : v + d; }
         case 2: return rnd(-20, 20);
         case 3: return static_cast<std::int64_t>(rng()()) >> rnd(0, 62);
         default: return static_cast<std::int64_t>(rng()());
      }
   }
   SafeInteger safe(std::int64_t v) { SafeInteger s; s.data = v; return s; }
   // exact value or std::invalid_argument; defined tells whether the result exists
   template <typename F> void exact(const char* what, bool defined, const Z& want, F f)
   {
      bool raised = false;
      Z got = 0;
      try { got = Z(f().data); } catch ( const std::invalid_argument& ) { raised = true; }
      const bool ok = defined && rep(want);
      expect(raised == !ok, std::string(what) + (raised ? ": raises although the result " + str(want) + " is representable" : ": yields " + str(got) + " instead of raising"));
      if ( !raised ) same(got, want, what);
   }
   template <typename T> void construct(const char* what)
   {
      T v = static_cast<T>(value());
      if ( coin(4) ) v = coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
      begin(std::string(what) + " " + std::to_string(v));
      exact(what, true, Z(v), [&] { return SafeInteger(v); });
   }
}
void run()
{
   while ( time_left() )
   {
      guard();
      for ( int r = 0; r < 50; ++r )
      {
         std::int64_t a = value(), b = value();
         if ( coin(4) ) b = a;
         if ( coin(5) && b != 0 && b != -1 ) { const long d = rnd(-2, 2); const std::int64_t q = (coin() ? INT64_MAX : INT64_MIN) / b; a = (d > 0 && q > INT64_MAX - d) || (d < 0 && q < INT64_MIN - d) ? q : q + d; }
         const Z x(a), y(b);
         begin("a = " + str(x) + ", b = " + str(y));
         const SafeInteger s = safe(a), t = safe(b);
         const Z quotient = y == 0 ? Z(0) : Z(x / y);
         const Z residue = y > 0 ? Z(((x % y) + y) % y) : Z(0);
         exact("a + b", true, x + y, [&] { return s + t; });
         exact("a - b", true, x - y, [&] { return s - t; });
         exact("a * b", true, x * y, [&] { return s * t; });
         exact("a / b", y != 0, quotient, [&] { return s / t; });
         exact("a % b", y > 0, residue, [&] { return s % t; });
         exact("a += b", true, x + y, [&] { SafeInteger u = s; return u += t; });
         exact("a -= b", true, x - y, [&] { SafeInteger u = s; return u -= t; });
         exact("a *= b", true, x * y, [&] { SafeInteger u = s; return u *= t; });
         exact("a /= b", y != 0, quotient, [&] { SafeInteger u = s; return u /= t; });
         exact("a %= b", y > 0, residue, [&] { SafeInteger u = s; return u %= t; });
         exact("a += a (same object)", true, x + x, [&] { SafeInteger u = s; return u += u; });
         exact("a -= a (same object)", true, 0, [&] { SafeInteger u = s; return u -= u; });
         exact("a *= a (same object)", true, x * x, [&] { SafeInteger u = s; return u *= u; });
         exact("a /= a (same object)", x != 0, 1, [&] { SafeInteger u = s; return u /= u; });
         exact("a %= a (same object)", x > 0, 0, [&] { SafeInteger u = s; return u %= u; });
         exact("-a", true, -x, [&] { return -s; });
         exact("abs(a)", true, x < 0 ? Z(-x) : x, [&] { return abs(s); });
         const int i = static_cast<int>(coin() ? b : rnd(-3, 3));
         const int j = static_cast<int>(coin() ? a : i);
         const SafeInteger w = coin() ? s : safe(j);
         const Z wz(w.data);
         #define CMP(op) expect((s op t) == (x op y), "a " #op " b"); expect((w op i) == (wz op Z(i)), "comparison " #op " of " + str(wz) + " with int " + std::to_string(i));
         CMP(==) CMP(!=) CMP(<) CMP(>) CMP(<=) CMP(>=)
         bool raised = false;
         int c = 0;
         try { c = static_cast<int>(w); } catch ( const std::invalid_argument& ) { raised = true; }
         const bool fits = INT32_MIN <= w.data && w.data <= INT32_MAX;
         expect(raised == !fits, "conversion of " + str(wz) + " to int");
         if ( fits ) same(Z(c), wz, "conversion to int");
      }
      construct<std::int16_t>("from int16_t");
      construct<std::int32_t>("from int32_t");
      construct<std::int64_t>("from int64_t");
      construct<std::uint16_t>("from uint16_t");
      construct<std::uint32_t>("from uint32_t");
      construct<std::uint64_t>("from uint64_t");
   }
}
