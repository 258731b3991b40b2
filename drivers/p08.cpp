// reduction of a row modulo equations
#include "templ.h"
#include "algorithm_row_operations.h"
using namespace drv;
template <typename T> struct F
{
   static void go()
   {
      guard();
      const std::size_t n = rnd(1, 6);
      const std::size_t k = rnd(0, std::min<long>(3, n));
      // equations whose first nonzero coefficients are positive
      M eqs;
      for ( std::size_t i = 0; i < k; ++i )
      {
         V e = small(n, 4);
         std::size_t p = 0;
         while ( p < n && e[p] == 0 ) ++p;
         if ( p == n ) e[p = rnd(0, n - 1)] = 1;
         if ( e[p] < 0 ) for ( auto& z : e ) z = -z;
         eqs.push_back(e);
      }
      const V r = small(n, 6);
      begin(std::string(name<T>()) + " row = " + str(r) + ", equations = " + str(eqs));
      // the row must equal (positive multiple of r) plus a combination of the equations, reduced in the order given
      V w = r;
      Z bound = vmax(r);
      for ( const auto& e : eqs )
      {
         std::size_t p = 0;
         while ( e[p] == 0 ) ++p;
         const Z a = w[p], b = e[p];
         if ( a != 0 ) for ( std::size_t j = 0; j < n; ++j ) { if ( zabs(w[j] * b) > bound ) bound = zabs(w[j] * b); if ( zabs(a * e[j]) > bound ) bound = zabs(a * e[j]); w[j] = w[j] * b - a * e[j]; }
         if ( vmax(w) > bound ) bound = vmax(w);
      }
      if ( bound > Conv<T>::limit() ) return;
      const Z g = vgcd(w);
      if ( g > 1 ) for ( auto& z : w ) z /= g;
      const V got = unrow<T>(panda::algorithm::normalize(row<T>(r), mat<T>(eqs)));
      expect(got.size() == n, "the length of the row is kept");
      if ( got != w )
      {
         // any primitive representative of the same ray modulo the equations with the same zero positions is acceptable
         M m = eqs; const std::size_t rk = zrank(m);
         bool ok = vgcd(got) <= 1;
         if ( ok && rk == eqs.size() )
         {
            M q = eqs; q.push_back(w); q.push_back(got);
            ok = zrank(q) <= rk + 1;
         }
         fail(std::string(ok ? "not the reduced row" : "not a primitive representative of the row modulo the equations") + ": got " + str(got) + ", expected " + str(w));
      }
   }
};
void run() { while ( time_left() ) each_type<F>(); }
