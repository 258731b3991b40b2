// applying a map to a facet row or a vertex row
#include "templ.h"
#include "algorithm_map_operations.h"
using namespace drv;
namespace
{
   panda::Map map_of(std::size_t n, long lim)
   {
      panda::Map m(n);
      const int kind = rnd(0, 3);
      std::vector<std::size_t> p(n); for ( std::size_t i = 0; i < n; ++i ) p[i] = i;
      for ( std::size_t i = n; i > 1; --i ) std::swap(p[i - 1], p[rnd(0, i - 1)]);
      for ( std::size_t i = 0; i < n; ++i )
      {
         if ( kind == 0 ) { m[i].push_back({p[i], static_cast<int>(coin() ? -1 : 1)}); continue; }     // signed permutation
         const long terms = coin(8) ? 0 : rnd(1, kind == 1 ? 2 : 5);
         for ( long k = 0; k < terms; ++k ) m[i].push_back({static_cast<std::size_t>(rnd(0, n - 1)), static_cast<int>(coin(6) ? 0 : coin(4) ? rnd(-lim, lim) : rnd(-3, 3))});
      }
      if ( kind == 3 && n > 1 ) { m[0] = m[n - 1]; for ( auto& t : m[0] ) t.second = -t.second; }
      return m;
   }
   std::string text(const panda::Map& m)
   {
      std::string s = "[";
      for ( const auto& i : m ) { s += "["; for ( const auto& t : i ) s += std::to_string(t.second) + "*x" + std::to_string(t.first) + " "; s += "]"; }
      return s + "]";
   }
   template <typename Tag> struct Raw;
   template <> struct Raw<panda::tag::facet>
   {
      static const char* name() { return "facet"; }
      static V at(const panda::Map& m, const V& a) { V r(a.size()); for ( std::size_t i = 0; i < m.size(); ++i ) for ( const auto& t : m[i] ) r[t.first] += a[i] * t.second; return r; }
   };
   template <> struct Raw<panda::tag::vertex>
   {
      static const char* name() { return "vertex"; }
      static V at(const panda::Map& m, const V& x) { V r(x.size()); for ( std::size_t i = 0; i < m.size(); ++i ) for ( const auto& t : m[i] ) r[i] += x[t.first] * t.second; return r; }
   };
}
template <typename T> struct F
{
   template <typename Tag> static void one(const panda::Map& m, const V& v, Tag tag)
   {
      // no intermediate value leaves the range of the type
      Z sum = 0; for ( const auto& i : m ) for ( const auto& t : i ) { if ( zabs(Z(t.second)) > Conv<T>::limit() ) return; sum += zabs(Z(t.second)) * vmax(v); }
      if ( sum > Conv<T>::limit() ) return;
      begin(std::string(name<T>()) + " " + Raw<Tag>::name() + " map = " + text(m) + " row = " + str(v));
      guard();
      V want = Raw<Tag>::at(m, v);
      const Z g = vgcd(want); if ( g > 1 ) for ( auto& z : want ) z /= g;
      const auto in = row<T>(v);
      same(str(unrow<T>(panda::algorithm::apply(m, in, tag))), str(want), "image of the row");
      same(str(unrow<T>(in)), str(v), "the input row");
   }
   static void go()
   {
      const std::size_t n = rnd(1, 6);
      const bool big = coin(3);
      const panda::Map m = map_of(n, big ? 2147483647L : 40);
      const V v = coin() ? small(n, 6) : vec(n, big ? Conv<T>::limit() : Z(1000));
      one(m, v, panda::tag::facet{});
      one(m, v, panda::tag::vertex{});
   }
};
void run() { while ( time_left() ) each_type<F>(); }
