// validity checks of inequalities, vertices and maps
#include "templ.h"
#include "algorithm_row_operations.h"
#include "input_validity.h"
#include "maps.h"
using namespace drv;
namespace impl = panda::input::implementation;
namespace
{
   using MI = std::vector<std::vector<int>>;
   using MV = std::vector<std::vector<long>>;
   std::string text(const panda::Map& m)
   {
      std::string s = "[";
      for ( const auto& i : m ) { s += "["; for ( const auto& t : i ) s += std::to_string(t.second) + "*x" + std::to_string(t.first) + " "; s += "]"; }
      return s + "]";
   }
   template <typename F> bool raises(F f) { try { f(); } catch ( const std::exception& ) { return true; } return false; }
   V big(const std::vector<int>& r) { V v; for ( int x : r ) v.push_back(x); return v; }
   M big(const MI& m) { M r; for ( const auto& x : m ) r.push_back(big(x)); return r; }
   /// the oracle: satisfied by every row, tight on rows that span one dimension less
   bool facet(const M& rows, const V& e)
   {
      M t;
      for ( const auto& r : rows ) { const Z d = zdot(e, r); if ( d > 0 ) return false; if ( d == 0 ) t.push_back(r); }
      return !t.empty() && zrank(t) + 1 == zrank(rows);
   }
   MI points(std::size_t& n)
   {
      n = rnd(1, 5);
      const int kind = rnd(0, 5);
      const long e = n == 5 ? 1 : rnd(1, 3);
      MI m(kind == 5 ? 1 : rnd(1, 9), std::vector<int>(n));
      for ( auto& r : m )
      {
         for ( auto& x : r ) x = static_cast<int>(kind == 0 ? rnd(0, 1) : rnd(-e, e));
         if ( kind <= 2 ) r[n - 1] = 1; else if ( kind == 3 ) r[n - 1] = static_cast<int>(rnd(0, 1));
         if ( n > 2 && kind == 2 ) r[0] = r[1];
      }
      if ( coin(6) ) m.push_back(m[rnd(0, m.size() - 1)]);
      return m;
   }
   /// hyperplane through some rows (cofactors of a matrix with unit rows added); the entries stay small
   std::vector<int> plane(const MI& m, std::size_t n)
   {
      M a; const std::size_t k = rnd(0, n - 1);
      for ( std::size_t i = 0; i < k; ++i ) a.push_back(big(m[rnd(0, m.size() - 1)]));
      while ( a.size() + 1 < n ) a.push_back(big(std::vector<int>(n, 0))), a.back()[rnd(0, n - 1)] = 1;
      V v(n);
      for ( std::size_t c = 0; c < n; ++c )
      {
         std::vector<std::size_t> p; for ( std::size_t j = 0; j < n; ++j ) if ( j != c ) p.push_back(j);
         Z det = 0;
         do
         {
            Z t = 1; for ( std::size_t i = 0; i < p.size(); ++i ) { t *= a[i][p[i]]; for ( std::size_t j = i + 1; j < p.size(); ++j ) if ( p[i] > p[j] ) t = -t; }
            det += t;
         } while ( std::next_permutation(p.begin(), p.end()) );
         v[c] = c % 2 ? Z(-det) : det;
      }
      const Z g = vgcd(v);
      std::vector<int> r(n);
      for ( std::size_t c = 0; c < n; ++c ) r[c] = g == 0 ? 0 : static_cast<int>(Z(v[c] / g));
      bool up = false; for ( const auto& x : m ) if ( zdot(big(r), big(x)) > 0 ) up = true;
      if ( up ) for ( auto& x : r ) x = -x;
      return r;
   }
   std::vector<int> candidate(const MI& m, std::size_t n)
   {
      std::vector<int> r = plane(m, n);
      switch ( rnd(0, 7) )
      {
         case 0: { const auto s = plane(m, n); for ( std::size_t i = 0; i < n; ++i ) r[i] += s[i]; break; }
         case 1: for ( auto& x : r ) x *= 2; break;
         case 2: r[n - 1] -= 1; break;
         case 3: for ( auto& x : r ) x = -x; break;
         case 4: for ( auto& x : r ) x = static_cast<int>(rnd(-2, 2)); break;
         default: break;
      }
      return r;
   }
   void facets()
   {
      std::size_t n; const MI m = points(n);
      const bool good = coin();
      MI e;
      for ( long c = rnd(0, 12); c > 0; --c )
      {
         const auto r = candidate(m, n);
         if ( good && !facet(big(m), big(r)) && !coin(20) ) continue;
         e.push_back(r);
      }
      begin("rows " + str(m) + ", to check " + str(e));
      MI keep; for ( const auto& r : e ) if ( facet(big(m), big(r)) ) keep.push_back(r);
      const bool want = keep.size() != e.size();
      same(raises([&] { impl::checkValidityOfInequalities(m, e); }), want, "check of the inequalities raises");
      same(raises([&] { impl::checkValidityOfVertices(m, e); }), want, "check of the vertices raises");
      MI f = e; impl::filterInvalidInequalities(m, f);
      if ( f != keep ) fail("filter of the inequalities: got " + str(f) + ", expected " + str(keep));
      f = e; impl::filterInvalidVertices(m, f);
      if ( f != keep ) fail("filter of the vertices: got " + str(f) + ", expected " + str(keep));
   }
   panda::Map random_map(std::size_t n)
   {
      panda::Map m(n);
      std::vector<std::size_t> p(n); for ( std::size_t i = 0; i < n; ++i ) p[i] = i;
      for ( std::size_t i = n; i > 1; --i ) std::swap(p[i - 1], p[rnd(0, i - 1)]);
      const int kind = rnd(0, 6);
      const bool signs = coin();
      for ( std::size_t i = 0; i < n; ++i )
         if ( kind <= 3 ) m[i].push_back({p[i], signs && coin() ? -1 : 1});
         else if ( kind == 4 ) { if ( !coin(5) ) m[i].push_back({static_cast<std::size_t>(rnd(0, n - 1)), 1}); }
         else { m[i].push_back({p[i], 1}); if ( coin() ) m[i].push_back({static_cast<std::size_t>(rnd(0, n - 1)), static_cast<int>(coin() ? -1 : 1)}); }
      return m;
   }
   V image(const panda::Map& m, const V& r, bool vertex)
   {
      V o(r.size());
      for ( std::size_t i = 0; i < r.size(); ++i ) for ( const auto& t : m[i] ) if ( vertex ) o[i] += t.second * r[t.first]; else o[t.first] += t.second * r[i];
      const Z g = vgcd(o);
      if ( g > 1 ) for ( auto& x : o ) x /= g;
      return o;
   }
   std::vector<int> ints(const V& v) { std::vector<int> r; for ( const auto& x : v ) r.push_back(static_cast<int>(x)); return r; }
   void maps()
   {
      const std::size_t n = rnd(1, 4); const bool vertex = coin();
      panda::Maps ms; for ( long c = rnd(0, 3); c > 0; --c ) ms.push_back(random_map(n));
      std::set<V> s;
      for ( long c = rnd(0, 4); c > 0; --c )
      {
         V r = small(n, 2);
         const Z g = vgcd(r); if ( g > 1 && !coin(4) ) for ( auto& x : r ) x /= g;
         s.insert(r);
      }
      for ( int round = 0; round < 6 && !ms.empty(); ++round ) { const auto c = s; for ( const auto& r : c ) for ( const auto& m : ms ) if ( s.size() < 24 ) { const V i = image(m, r, vertex); if ( vmax(i) < 1000 ) s.insert(i); } }
      if ( coin(4) && !s.empty() ) { auto it = s.begin(); std::advance(it, rnd(0, s.size() - 1)); s.erase(it); }
      MI rows; for ( const auto& r : s ) rows.push_back(ints(r));
      for ( std::size_t i = rows.size(); i > 1; --i ) std::swap(rows[i - 1], rows[rnd(0, i - 1)]);
      std::string t; for ( const auto& m : ms ) t += " " + text(m);
      begin(std::string(vertex ? "vertices " : "inequalities ") + str(rows) + ", maps" + t);
      bool want = false;
      for ( const auto& m : ms )
      {
         std::set<V> image_set; for ( const auto& r : s ) image_set.insert(image(m, r, vertex));
         if ( image_set != s ) want = true;
      }
      same(raises([&] { if ( vertex ) impl::checkValidityOfVertexClasses(rows, ms); else impl::checkValidityOfInequalityClasses(rows, ms); }), want, "check of the maps raises");
   }
}
void run()
{
   while ( time_left() ) { facets(); maps(); }
}
