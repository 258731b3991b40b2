// matrix-vector product, transposition, negative identity
#include "templ.h"
#include "algorithm_matrix_operations.h"
using namespace drv;
template <typename T> struct F
{
   static void go()
   {
      guard();
      const Z top = Conv<T>::limit();
      const Z lim = coin() ? Z(40) : top > (Z(1) << 150) ? Z(1) << 150 : top;
      const std::size_t m = coin(12) ? rnd(1, 40) : rnd(1, 7), n = coin(12) ? rnd(1, 40) : rnd(1, 7);
      M a; for ( std::size_t i = 0; i < m; ++i ) a.push_back(vec(n, lim));
      if ( coin(5) ) a[rnd(0, m - 1)] = a[rnd(0, m - 1)];
      V x = vec(n, coin() ? Z(20) : lim);
      if ( coin(4) ) for ( auto& z : x ) z = coin() ? 0 : rnd(-1, 1);
      begin(std::string(name<T>()) + " matrix = " + str(a) + ", vector = " + str(x));
      const auto A = mat<T>(a); const auto X = row<T>(x);
      V want(m); bool fits = true;
      for ( std::size_t i = 0; i < m; ++i ) { want[i] = zdot(a[i], x); Z p = 0; for ( std::size_t j = 0; j < n; ++j ) p += zabs(a[i][j] * x[j]); if ( p > top ) fits = false; }
      if ( fits ) { const V got = unrow<T>(A * X); if ( got != want ) fail("matrix times vector: got " + str(got) + ", expected " + str(want)); }
      M t(n, V(m));
      for ( std::size_t i = 0; i < m; ++i ) for ( std::size_t j = 0; j < n; ++j ) t[j][i] = a[i][j];
      const M gt = unmat<T>(panda::algorithm::transpose(A));
      if ( gt != t ) fail("transposed matrix: got " + str(gt) + ", expected " + str(t));
      M id = a; for ( std::size_t j = 0; j < n; ++j ) { V u(n); u[j] = -1; id.push_back(u); }
      auto B = A;
      panda::algorithm::appendNegativeIdentityMatrix(B);
      const M gb = unmat<T>(B);
      if ( gb != id ) fail("matrix with negative identity: got " + str(gb) + ", expected " + str(id));
      expect(unmat<T>(A) == a && unrow<T>(X) == x, "operands are unchanged");
   }
};
void run() { while ( time_left() ) each_type<F>(); }
