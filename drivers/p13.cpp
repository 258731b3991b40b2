// distance, right hand side, nearest and furthest vertex
#include "templ.h"
#include "algorithm_inequality_operations.h"
using namespace drv;
template <typename T> struct F
{
   static void go()
   {
      guard();
      const Z top = Conv<T>::limit();
      const bool wide = coin();
      const Z lim = !wide ? Z(rnd(1, 12)) : top > (Z(1) << 150) ? Z(1) << 150 : Z(top);
      const std::size_t n = rnd(1, 6), m = coin(10) ? rnd(1, 60) : rnd(1, 8);
      const V f = vec(n, lim);
      M v; for ( std::size_t i = 0; i < m; ++i ) v.push_back(vec(n, lim));
      if ( m > 1 && coin(3) ) v[rnd(0, m - 1)] = v[rnd(0, m - 1)];
      if ( n > 1 && coin(3) ) for ( auto& w : v ) w[n - 1] = coin(4) ? 0 : 1;
      begin(std::string(name<T>()) + " inequality = " + str(f) + ", vertices = " + str(v));
      const auto A = mat<T>(v); const auto X = row<T>(f);
      same(from<T>(panda::algorithm::rhs(X)), Z(-f.back()), "right hand side");
      std::size_t near = 0, far = 0;
      std::vector<Z> d;
      for ( std::size_t i = 0; i < m; ++i )
      {
         Z p = 0; for ( std::size_t j = 0; j < n; ++j ) p += zabs(v[i][j] * f[j]);
         if ( p > top ) return;
         d.push_back(-zdot(f, v[i]));
         same(from<T>(panda::algorithm::distance(X, A[i])), d[i], "distance");
         if ( d[i] < d[near] ) near = i;
         if ( d[i] > d[far] ) far = i;
      }
      const V gn = unrow<T>(panda::algorithm::nearestVertex(A, X)), gf = unrow<T>(panda::algorithm::furthestVertex(A, X));
      if ( gn != v[near] ) fail("nearest vertex: got " + str(gn) + ", expected " + str(v[near]));
      if ( gf != v[far] ) fail("furthest vertex: got " + str(gf) + ", expected " + str(v[far]));
      expect(unmat<T>(A) == v && unrow<T>(X) == f, "operands are unchanged");
   }
};
void run() { while ( time_left() ) each_type<F>(); }
