// rotation of a facet around its ridges
#include "templ.h"
#include "algorithm_rotation.h"
#include <algorithm>
#include <set>
using namespace drv;
namespace
{
   V primitive(V r) { const Z g = vgcd(r); if ( g > 1 ) for ( auto& z : r ) z /= g; return r; }
   /// the vector orthogonal to all rows, if it is unique up to scaling
   bool orthogonal(const M& rows, std::size_t n, V& out)
   {
      // fraction free elimination, then back substitution with one free column
      M m = rows; std::vector<std::size_t> piv; std::size_t r = 0;
      for ( std::size_t c = 0; c < n && r < m.size(); ++c )
      {
         std::size_t p = r; while ( p < m.size() && m[p][c] == 0 ) ++p;
         if ( p == m.size() ) continue;
         std::swap(m[p], m[r]);
         for ( std::size_t i = 0; i < m.size(); ++i ) if ( i != r && m[i][c] != 0 ) { const Z a = m[r][c], b = m[i][c]; for ( std::size_t j = 0; j < n; ++j ) m[i][j] = m[i][j] * a - m[r][j] * b; m[i] = primitive(m[i]); }
         piv.push_back(c); ++r;
      }
      if ( r + 1 != n ) return false;
      std::size_t free = 0; while ( free < piv.size() && piv[free] == free ) ++free;
      Z l = 1; for ( std::size_t i = 0; i < r; ++i ) { const Z d = zabs(m[i][piv[i]]); l = l / zgcd(l, d) * d; }
      out = V(n); out[free] = l;
      for ( std::size_t i = 0; i < r; ++i ) out[piv[i]] = -m[i][free] * l / m[i][piv[i]];
      out = primitive(out);
      return true;
   }
   std::vector<bool> tight(const V& f, const M& vs) { std::vector<bool> t; for ( const auto& v : vs ) t.push_back(zdot(f, v) == 0); return t; }
   bool valid(const V& f, const M& vs) { for ( const auto& v : vs ) if ( zdot(f, v) > 0 ) return false; return true; }
   M select(const M& vs, const std::vector<bool>& t) { M s; for ( std::size_t i = 0; i < vs.size(); ++i ) if ( t[i] ) s.push_back(vs[i]); return s; }
   /// every facet of a full dimensional cone, by brute force over the sets of n - 1 rays
   std::set<V> facets(const M& vs, std::size_t n)
   {
      std::set<V> out;
      std::vector<std::size_t> ix(n - 1);
      auto rec = [&](auto&& self, std::size_t k, std::size_t from) -> void
      {
         if ( k == n - 1 )
         {
            M rows; for ( auto i : ix ) rows.push_back(vs[i]);
            V f; if ( !orthogonal(rows, n, f) ) return;
            for ( int s = 0; s < 2; ++s ) { if ( valid(f, vs) ) out.insert(f); for ( auto& z : f ) z = -z; }
            return;
         }
         for ( std::size_t i = from; i < vs.size(); ++i ) { ix[k] = i; self(self, k + 1, i + 1); }
      };
      rec(rec, 0, 0);
      return out;
   }
   struct Case { M vs; V f; std::set<V> all; std::size_t n; bool full; };
   bool make(Case& c)
   {
      c.n = coin(4) ? 4 : rnd(2, 3);
      const std::size_t n = c.n;
      const std::size_t m = rnd(n, n + (n == 4 ? 4 : 6));
      const int kind = rnd(0, 4);
      for ( std::size_t i = 0; i < m; ++i )
      {
         V v(n);
         switch ( kind )
         {
            case 0: for ( auto& z : v ) z = rnd(0, 1); v[n - 1] = 1; break;
            case 1: for ( auto& z : v ) z = rnd(-3, 3); v[n - 1] = 1; break;
            case 2: for ( auto& z : v ) z = rnd(-9, 9); v[n - 1] = coin(3) ? 0 : rnd(1, 3); break;
            case 3: for ( auto& z : v ) z = rnd(0, 4); break;
            default: { const long x = rnd(-5, 5); Z p = 1; for ( std::size_t j = n; j-- > 0; ) { v[j] = p; p *= x; } break; }
         }
         if ( coin(12) && !c.vs.empty() ) v = c.vs[rnd(0, c.vs.size() - 1)];
         c.vs.push_back(v);
      }
      c.full = zrank(c.vs) == n;
      if ( !c.full ) return false;
      c.all = facets(c.vs, n);
      if ( c.all.empty() ) return false;
      auto it = c.all.begin(); std::advance(it, rnd(0, c.all.size() - 1));
      c.f = *it;
      if ( coin(8) && c.all.size() > 1 )   // a valid inequality that is tight on a smaller face
      {
         auto other = c.all.begin(); std::advance(other, rnd(0, c.all.size() - 1));
         for ( std::size_t j = 0; j < n; ++j ) c.f[j] += (*other)[j];
      }
      if ( coin(8) ) for ( auto& z : c.f ) z *= 3;
      return true;
   }
}
template <typename T> struct F
{
   template <typename Tag> static bool one(const Case& c, Tag tag, const char* tagname)
   {
      const auto on = tight(c.f, c.vs);
      const M face = select(c.vs, on);
      bool nonzero = false; for ( const auto& v : face ) for ( const auto& z : v ) nonzero = nonzero || z != 0;
      bool off = false; for ( bool b : on ) off = off || !b;
      if ( !nonzero || !off ) return true;
      begin(std::string(name<T>()) + " " + tagname + " vertices = " + str(c.vs) + " facet = " + str(c.f));
      guard();
      M got;
      try { got = unmat<T>(panda::algorithm::rotation(mat<T>(c.vs), row<T>(c.f), panda::Maps{}, tag)); }
      catch ( const std::exception& ) { if ( std::string(name<T>()) == "SafeInteger" ) return false; throw; }
      for ( const auto& g : got )
      {
         same(g.size(), c.n, "width of a rotated row");
         expect(valid(g, c.vs), "the rotated row " + str(g) + " cuts off a vertex");
         same(vgcd(g), Z(1), "gcd of the rotated row " + str(g));
         const auto t = tight(g, c.vs);
         bool outside = false; for ( std::size_t i = 0; i < t.size(); ++i ) if ( t[i] && !on[i] ) outside = true;
         expect(outside, "the rotated row " + str(g) + " is tight at no vertex off the facet");
         bool all = true; for ( std::size_t i = 0; i < t.size(); ++i ) if ( on[i] && !t[i] ) all = false;
         expect(!all, "the rotated row " + str(g) + " is tight at the whole facet");
      }
      // the ridges: faces of the facet of one dimension less; each of them lies on exactly one other facet
      const std::size_t d = zrank(face);
      if ( d + 1 != c.n || d < 2 ) return true;
      for ( const auto& v : face ) if ( v.back() <= 0 ) return true;   // the elimination leaves out the inequality x_n >= 0 on purpose
      for ( const auto& h : c.all )
      {
         const auto t = tight(h, c.vs);
         std::vector<bool> both(t.size()); for ( std::size_t i = 0; i < t.size(); ++i ) both[i] = t[i] && on[i];
         if ( both == on || zrank(select(c.vs, both)) + 1 != d ) continue;
         expect(std::find(got.begin(), got.end(), h) != got.end(), "the neighbouring facet " + str(h) + " is not among " + str(got));
      }
      expect(std::set<V>(got.begin(), got.end()).size() == got.size(), "a neighbour appears twice in " + str(got));
      return true;
   }
   static bool both(const Case& c) { return coin() ? one(c, panda::tag::facet{}, "facet") : one(c, panda::tag::vertex{}, "vertex"); }
};
void run()
{
   while ( time_left() )
   {
      Case c;
      if ( !make(c) ) continue;
      F<BigInteger>::both(c);
      if ( F<SafeInteger>::both(c) ) F<std::int64_t>::both(c);   // what fits a SafeInteger fits an int64
      if ( coin(3) )   // large entries
      {
         const Z f = Z(1) << 70;
         for ( auto& v : c.vs ) if ( coin(3) ) { const Z g = f + rnd(0, 9); for ( auto& z : v ) z *= g; }
         F<BigInteger>::both(c);
      }
   }
}
