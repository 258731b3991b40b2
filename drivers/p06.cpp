// greatest common divisors and least common multiples of numbers and rows, for every integer type
#include "templ.h"
#include "algorithm_integer_operations.h"
#include "algorithm_row_operations.h"
using namespace drv;
template <typename T> struct F
{
   static void go()
   {
      guard();
      const Z lim = Conv<T>::limit() > (Z(1) << 200) ? Z(1) << 200 : Conv<T>::limit();
      Z a = bounded(lim), b = bounded(lim);
      if ( coin(4) ) { const Z g = bounded(lim); if ( zabs(a * g) <= lim ) a *= g; if ( zabs(b * g) <= lim ) b *= g; }
      begin(std::string(name<T>()) + " a = " + str(a) + ", b = " + str(b));
      const Z g = zgcd(a, b);
      same(from<T>(panda::algorithm::gcd(to<T>(a), to<T>(b))), g, "gcd(a, b)");
      if ( g != 0 )
      {
         const Z l = zabs(a / g * b);
         if ( l <= lim ) same(from<T>(panda::algorithm::lcm(to<T>(a), to<T>(b))), l, "lcm(a, b)");
      }
      V v = vec(rnd(0, 6), lim);
      if ( coin(3) ) { const Z m = bounded(lim); for ( auto& z : v ) if ( zabs(z * m) <= lim ) z *= m; }
      if ( coin(4) ) for ( auto& z : v ) if ( coin() ) z = 0;
      begin(std::string(name<T>()) + " row " + str(v));
      same(from<T>(panda::algorithm::gcd(row<T>(v))), vgcd(v), "gcd of the row");
      v = vec(rnd(0, 5), coin() ? Z(30) : lim);
      Z l = 1;
      for ( auto& z : v ) { if ( z == 0 || coin(4) ) z = coin() ? 1 : -1; l = zabs(l / zgcd(l, z) * z); }
      begin(std::string(name<T>()) + " row " + str(v));
      if ( l <= lim ) same(from<T>(panda::algorithm::lcm(row<T>(v))), l, "lcm of the row");
   }
};
void run() { while ( time_left() ) each_type<F>(); }
