// Fourier-Motzkin elimination: soundness of every returned row
#include "templ.h"
#include <algorithm>
#include "algorithm_fourier_motzkin_elimination.h"
using namespace drv;
template <typename T> struct F
{
   static bool wide() { return coin(3); }
   static V member(const M& gen, std::size_t n, int kind)
   {
      V v(n);
      switch ( kind )
      {
         case 0: for ( auto& z : v ) z = rnd(-3, 3); break;                                          // any ray
         case 1: for ( auto& z : v ) z = rnd(0, 1); v[n - 1] = 1; break;                             // 0/1 vertices
         case 2: { const long x = rnd(-8, 8); Z p = 1; for ( std::size_t j = n; j-- > 0; ) { v[j] = p; p *= x; } break; }   // moment curve
         case 3: for ( const auto& g : gen ) { const long k = rnd(0, 2); for ( std::size_t j = 0; j < n; ++j ) v[j] += k * g[j]; } break;   // in a lower dimension
         default: for ( auto& z : v ) z = rnd(-6, 6); v[n - 1] = 1; break;
      }
      return v;
   }
   static M input(std::size_t m, std::size_t n)
   {
      M gen; for ( long i = rnd(1, n); i > 0; --i ) gen.push_back(small(n, 3));
      const int kind = rnd(0, 4);
      M a;
      for ( std::size_t i = 0; i < m; ++i )
      {
         V v = member(gen, n, kind);
         if ( coin(20) ) v = V(n);
         if ( coin(15) && !a.empty() ) { v = a[rnd(0, a.size() - 1)]; if ( coin() ) for ( auto& z : v ) z *= rnd(-1, 3); }
         if ( wide() && coin(12) ) { const Z f = number(); for ( auto& z : v ) z *= f < 0 ? Z(-f) : f + 1; }
         a.push_back(v);
      }
      if ( coin(5) ) for ( const auto& v : M(a) ) if ( coin(6) ) { V w = v; for ( auto& z : w ) z = -z; a.push_back(w); }
      return a;
   }
   static void check(const M& a, const M& got, std::size_t n, const char* what)
   {
      for ( const auto& r : got )
      {
         if ( r.size() != n ) fail(std::string(what) + ": row " + str(r) + " has the wrong width");
         if ( vgcd(r) != 1 ) fail(std::string(what) + ": row " + str(r) + " is not primitive");
         bool strict = false;
         for ( const auto& v : a ) { const Z d = zdot(r, v); if ( d > 0 ) fail(std::string(what) + ": row " + str(r) + " cuts off the ray " + str(v)); if ( d < 0 ) strict = true; }
         if ( !strict ) fail(std::string(what) + ": row " + str(r) + " is satisfied with equality by every ray");
      }
   }
   static bool run(const M& a, std::size_t n)
   {
      guard();
      begin(std::string(name<T>()) + " rays = " + str(a));
      try
      {
         check(a, unmat<T>(panda::algorithm::fourierMotzkinElimination(mat<T>(a))), n, "elimination");
         check(a, unmat<T>(panda::algorithm::fourierMotzkinEliminationHeuristic(mat<T>(a))), n, "heuristic elimination");
      }
      catch ( const std::exception& ) { if ( std::string(name<T>()) == "SafeInteger" ) return false; throw; }   // overflow detected
      return true;
   }
};
void run()
{
   while ( time_left() )
   {
      const std::size_t n = coin(6) ? 5 : rnd(1, 4);
      const std::size_t m = n > 4 ? rnd(1, 12) : coin(12) && n < 4 ? rnd(30, 140) : rnd(1, 12);
      const M a = F<BigInteger>::input(m, n);
      bool nonzero = false; Z top = 0; for ( const auto& v : a ) for ( const auto& z : v ) { if ( z != 0 ) nonzero = true; top = std::max(top, zabs(z)); }
      if ( !nonzero ) continue;
      F<BigInteger>::run(a, n);
      if ( top < 1000 && F<SafeInteger>::run(a, n) ) F<std::int64_t>::run(a, n);   // what fits a SafeInteger fits an int64
      if ( n <= 3 && m <= 8 && top <= 3 ) F<std::int32_t>::run(a, n);
   }
}
