// entrywise row arithmetic and scalar products, for every integer type (values whose results are representable)
#include "templ.h"
#include "algorithm_row_operations.h"
#include "algorithm_inequality_operations.h"
#include <stdexcept>
using namespace drv;
template <typename T> struct F
{
   static void check(const std::vector<T>& got, const V& want, const char* what) { const V g = unrow<T>(got); if ( g != want ) fail(std::string(what) + ": got " + str(g) + ", expected " + str(want)); }
   static void go()
   {
      guard();
      const Z top = Conv<T>::limit();
      const Z lim = top > (Z(1) << 200) ? Z(1) << 200 : top;
      const std::size_t n = rnd(0, 6);
      V a = vec(n, coin() ? Z(100) : lim), b = vec(n, coin() ? Z(100) : lim);
      Z f = bounded(coin() ? Z(9) : lim);
      begin(std::string(name<T>()) + " a = " + str(a) + ", b = " + str(b) + ", f = " + str(f));
      V sum(n), dif(n), pro(n), quo(n); Z dot = 0, part = 0;
      for ( std::size_t i = 0; i < n; ++i )
      {
         sum[i] = a[i] + b[i]; dif[i] = a[i] - b[i]; pro[i] = a[i] * f; if ( f != 0 ) quo[i] = a[i] / f;
         dot += a[i] * b[i];
         part += zabs(a[i] * b[i]);
      }
      const auto x = row<T>(a), y = row<T>(b); const T t = to<T>(f);
      if ( vmax(sum) <= top ) { check(x + y, sum, "a + b"); auto c = x; c += y; check(c, sum, "a += b"); }
      if ( vmax(dif) <= top ) { check(x - y, dif, "a - b"); auto c = x; c -= y; check(c, dif, "a -= b"); }
      if ( vmax(pro) <= top ) { check(x * t, pro, "a * f"); check(t * x, pro, "f * a"); auto c = x; c *= t; check(c, pro, "a *= f"); }
      if ( part <= top ) { same(from<T>(x * y), dot, "scalar product"); same(from<T>(panda::algorithm::distance(x, y)), Z(-dot), "distance of vertex b to inequality a"); }
      if ( n > 0 ) same(from<T>(panda::algorithm::rhs(x)), Z(-a.back()), "right hand side");
      bool raised = false;
      auto c = x;
      try { c /= t; } catch ( const std::invalid_argument& ) { raised = true; }
      expect(raised == (f == 0), "division of a row raises exactly for divisor zero");
      if ( f != 0 ) { check(c, quo, "a /= f"); check(x / t, quo, "a / f"); } else check(c, a, "a after a /= 0");
      check(x, a, "a after the operations"); check(y, b, "b after the operations");
   }
};
void run() { while ( time_left() ) each_type<F>(); }
