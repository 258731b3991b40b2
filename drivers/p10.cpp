// rank, column elimination and extraction of equations
#include "templ.h"
#include "algorithm_matrix_operations.h"
using namespace drv;
template <typename T> struct F
{
   static M input(std::size_t m, std::size_t n)
   {
      const bool wide = std::string(name<T>()) == "BigInteger";
      M a;
      const std::size_t r = rnd(0, std::min(m, n));
      M gen; for ( std::size_t i = 0; i < r; ++i ) gen.push_back(coin(3) && wide ? vec(n, Z(1) << 80) : small(n, wide ? 50 : 2));
      for ( std::size_t i = 0; i < m; ++i )
      {
         V v(n);
         if ( coin(4) ) { a.push_back(coin() ? v : small(n, 2)); continue; }
         for ( const auto& g : gen ) { const long k = coin() ? 0 : rnd(-2, 2); for ( std::size_t j = 0; j < n; ++j ) v[j] += k * g[j]; }
         a.push_back(v);
      }
      if ( coin(4) ) a[rnd(0, m - 1)] = a[rnd(0, m - 1)];
      return a;
   }
   static void go()
   {
      guard();
      const bool wide = std::string(name<T>()) == "BigInteger";
      const std::size_t m = wide && coin(10) ? rnd(1, 12) : rnd(1, wide ? 6 : 4), n = wide && coin(10) ? rnd(1, 12) : rnd(1, wide ? 6 : 3);
      const M a = input(m, n);
      begin(std::string(name<T>()) + " matrix = " + str(a));
      const auto A = mat<T>(a);
      const std::size_t rank = zrank(a);
      same(panda::algorithm::dimension(A), rank, "dimension");
      check(a, unmat<T>(panda::algorithm::extractEquations(A)), rank, n);
      expect(unmat<T>(A) == a, "operand is unchanged");
      auto B = A;
      panda::Indices ind; for ( std::size_t i = m; i-- > 0; ) if ( coin() ) ind.push_back(i);
      const M e = unmat<T>(panda::algorithm::extractEquations(B, ind));
      M want; for ( const auto i : ind ) want.push_back(a[i]);
      if ( e != want ) fail("rows " + str(ind) + ": got " + str(e) + ", expected " + str(want));
      std::multiset<V> rest, left; for ( std::size_t i = 0; i < m; ++i ) if ( std::find(ind.begin(), ind.end(), i) == ind.end() ) rest.insert(a[i]);
      for ( const auto& r : unmat<T>(B) ) left.insert(r);
      expect(rest == left, "the other rows stay");
   }
   static void check(const M& a, const M& e, std::size_t rank, std::size_t n)
   {
      if ( e.size() != n - rank ) fail("number of equations: got " + str(e.size()) + ", expected " + str(n - rank) + ", equations " + str(e));
      std::set<std::size_t> leads;
      for ( const auto& q : e )
      {
         if ( q.size() != n ) fail("length of equation " + str(q));
         for ( const auto& r : a ) if ( zdot(r, q) != 0 ) fail("equation " + str(q) + " does not hold for row " + str(r));
         if ( vgcd(q) != 1 ) fail("equation " + str(q) + " is not primitive");
         std::size_t l = 0; while ( q[l] == 0 ) ++l;
         if ( q[l] < 0 ) fail("equation " + str(q) + " has a negative leading coefficient");
         if ( !leads.insert(l).second ) fail("leading positions of the equations coincide: " + str(e));
      }
      for ( const auto& q : e ) for ( const auto l : leads ) { std::size_t k = 0; while ( q[k] == 0 ) ++k; if ( l != k && q[l] != 0 ) fail("equations are not reduced: " + str(e)); }
      if ( zrank(e) != e.size() ) fail("equations are dependent: " + str(e));
   }
};
void run() { while ( time_left() ) { F<std::int32_t>::go(); F<std::int64_t>::go(); F<BigInteger>::go(); F<BigInteger>::go(); F<SafeInteger>::go(); } }
