// orbits, representatives and reduction to representatives
#include "templ.h"
#include "algorithm_classes.h"
#include <algorithm>
#include <set>
using namespace drv;
namespace
{
   using S = std::set<V>;
   // a map whose orbits are finite: a signed permutation, a signed substitution of single coordinates (not invertible), or one of finite order with mixed terms
   panda::Map map_of(std::size_t n, int kind)
   {
      panda::Map m(n);
      std::vector<std::size_t> p(n); for ( std::size_t i = 0; i < n; ++i ) p[i] = i;
      if ( kind == 0 || kind == 1 )
      {
         const int moves = coin() ? 1 : rnd(0, n);
         for ( int k = 0; k < moves; ++k ) std::swap(p[rnd(0, n - 1)], p[rnd(0, n - 1)]);
         for ( std::size_t i = 0; i < n; ++i ) m[i].push_back({p[i], kind == 1 && coin(3) ? -1 : 1});
         return m;
      }
      if ( kind == 2 )
      {
         for ( std::size_t i = 0; i < n; ++i ) if ( !coin(6) ) m[i].push_back({static_cast<std::size_t>(rnd(0, n - 1)), coin(4) ? -1 : 1});
         return m;
      }
      if ( kind == 3 && n > 2 )   // x0 -> x1, x1 -> last - x0 - x1 (a symmetry of a simplex), the rest kept
      {
         for ( std::size_t i = 0; i < n; ++i ) m[i].push_back({i, 1});
         m[0] = {{1, 1}};
         m[1] = {{n - 1, 1}, {0, -1}, {1, -1}};
         if ( coin() ) std::reverse(m[1].begin(), m[1].end());
         return m;
      }
      for ( std::size_t i = 0; i < n; ++i ) m[i].push_back({i, 1});   // the involution x_a -> c x_b - x_a
      if ( n > 1 ) { const std::size_t a = rnd(0, n - 1); const std::size_t b = (a + rnd(1, n - 1)) % n; m[a] = {{a, -1}, {b, static_cast<int>(rnd(-2, 2))}}; }
      return m;
   }
   std::string text(const panda::Maps& ms)
   {
      std::string s = "[";
      for ( const auto& m : ms ) { s += "["; for ( const auto& i : m ) { s += "["; for ( const auto& t : i ) s += std::to_string(t.second) + "*x" + std::to_string(t.first) + " "; s += "]"; } s += "]"; }
      return s + "]";
   }
   V reduce(V r) { const Z g = vgcd(r); if ( g > 1 ) for ( auto& z : r ) z /= g; return r; }
   template <typename Tag> struct Image;
   template <> struct Image<panda::tag::facet>
   {
      static const char* name() { return "facet"; }
      static V at(const panda::Map& m, const V& a) { V r(a.size()); for ( std::size_t i = 0; i < m.size(); ++i ) for ( const auto& t : m[i] ) r[t.first] += a[i] * t.second; return reduce(r); }
   };
   template <> struct Image<panda::tag::vertex>
   {
      static const char* name() { return "vertex"; }
      static V at(const panda::Map& m, const V& x) { V r(x.size()); for ( std::size_t i = 0; i < m.size(); ++i ) for ( const auto& t : m[i] ) r[i] += x[t.first] * t.second; return reduce(r); }
   };
   /// all rows reached from x, or nothing if there are many or they are large
   template <typename Tag> bool orbit(const panda::Maps& ms, const V& x, const Z& limit, std::size_t most, S& out)
   {
      out.clear(); out.insert(x);
      std::vector<V> level{x};
      while ( !level.empty() )
      {
         std::vector<V> next;
         for ( const auto& v : level )
         {
            if ( vmax(v) * 8 * Z(v.size()) > limit ) return false;
            if ( out.size() > most ) return false;
            for ( const auto& m : ms ) { V y = Image<Tag>::at(m, v); if ( out.insert(y).second ) next.push_back(y); }
         }
         
         level = next;
      }
      return true;
   }
   template <typename A> std::string list(const A& s) { M m(s.begin(), s.end()); return str(m); }
   template <typename T, typename C> M rows(const C& c) { M m; for ( const auto& r : c ) m.push_back(unrow<T>(r)); return m; }
}
template <typename T> struct F
{
   template <typename Tag> static void one(const panda::Maps& ms, const M& input, Tag tag, bool invertible)
   {
      std::vector<S> orbits(input.size());
      for ( std::size_t i = 0; i < input.size(); ++i ) if ( !orbit<Tag>(ms, input[i], Conv<T>::limit(), 100, orbits[i]) ) return;
      const std::string what = std::string(name<T>()) + " " + Image<Tag>::name() + " maps = " + text(ms);
      {
         begin(what + " row = " + str(input[0]));
         guard();
         const auto in = row<T>(input[0]);
         const auto cls = panda::algorithm::getClass(in, ms, tag);
         const M got = rows<T>(cls);
         same(list(S(got.begin(), got.end())), list(orbits[0]), "class of the row");
         same(got.size(), orbits[0].size(), "size of the class");
         same(str(unrow<T>(panda::algorithm::classRepresentative(in, ms, tag))), str(*orbits[0].rbegin()), "representative");
         same(str(unrow<T>(in)), str(input[0]), "the input row");
      }
      begin(what + " rows = " + str(input));
      guard();
      panda::Matrix<T> in;
      for ( const auto& v : input ) in.push_back(row<T>(v));
      for ( int overload = 0; overload < 2; ++overload )
      {
         const M got = overload ? rows<T>(panda::algorithm::classes(std::set<panda::Row<T>>(in.begin(), in.end()), ms, tag)) : rows<T>(panda::algorithm::classes(in, ms, tag));
         // every result represents the class of some row, every row lies in a represented class
         std::vector<bool> covered(input.size(), false);
         for ( const auto& g : got )
         {
            bool found = false;
            std::vector<bool> by(input.size(), false);
            // the row behind a result is the first that is not covered in the order of the set; any choice is accepted
            for ( std::size_t i = 0; i < input.size(); ++i )
               if ( *orbits[i].rbegin() == g ) { found = true; for ( std::size_t j = 0; j < input.size(); ++j ) if ( orbits[i].count(input[j]) ) by[j] = true; }
            expect(found, "the result " + str(g) + " represents no class of a row");
            for ( std::size_t j = 0; j < input.size(); ++j ) if ( by[j] ) covered[j] = true;
         }
         for ( std::size_t j = 0; j < input.size(); ++j ) expect(covered[j], "the class of " + str(input[j]) + " is not represented in " + str(got));
         if ( invertible )
         {
            S want; for ( const auto& o : orbits ) want.insert(*o.rbegin());
            same(list(S(got.begin(), got.end())), list(want), "representatives");
            same(got.size(), want.size(), "number of representatives");
         }
      }
   }
   static void go()
   {
      const std::size_t n = coin(3) ? rnd(1, 6) : rnd(1, 4);
      panda::Maps ms;
      const int kind = rnd(0, 5);
      for ( int k = rnd(kind == 2 ? 1 : 0, 3); k > 0; --k ) ms.push_back(map_of(n, kind < 5 ? kind : rnd(0, 1)));
      Z most = Conv<T>::limit(); if ( most > (Z(1) << 150) ) most = Z(1) << 150;
      const Z scale = coin(6) ? most / 100 / Z(n) / 12 : 1;
      auto one_row = [&](){ V v = small(n, coin() ? 2 : 12); const Z f = scale < 2 || coin() ? Z(1) : scale; for ( auto& z : v ) if ( coin() ) z *= f; return coin(5) ? v : reduce(v); };
      M input;
      for ( int k = rnd(1, 7); k > 0; --k ) input.push_back(one_row());
      if ( input.size() > 1 && coin() ) input.back() = input[0];
      auto related = [&](const V& from, bool facet) { V v = from; if ( !ms.empty() ) for ( int k = rnd(1, 3); k > 0; --k ) { const auto& m = ms[rnd(0, ms.size() - 1)]; v = facet ? Image<panda::tag::facet>::at(m, v) : Image<panda::tag::vertex>::at(m, v); } return v; };
      const bool facet = coin();
      for ( int k = rnd(0, 2); k > 0; --k ) input.insert(input.begin() + rnd(0, input.size()), related(input[rnd(0, input.size() - 1)], facet));
      // an unreduced row lies outside the orbits of the others, but its images do not
      bool reduced = true;
      for ( const auto& v : input ) reduced = reduced && vgcd(v) <= 1;
      const bool invertible = kind != 2 && reduced;
      if ( facet ) one(ms, input, panda::tag::facet{}, invertible); else one(ms, input, panda::tag::vertex{}, invertible);
   }
};
void run() { while ( time_left() ) each_type<F>(); }
