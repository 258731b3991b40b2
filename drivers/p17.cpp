// normalisation of maps by equations
#include "templ.h"
#include "algorithm_map_operations.h"
using namespace drv;
namespace
{
   std::string text(const panda::Map& m)
   {
      std::string s = "[";
      for ( const auto& i : m ) { s += "["; for ( const auto& t : i ) s += std::to_string(t.second) + "*x" + std::to_string(t.first) + " "; s += "]"; }
      return s + "]";
   }
   V coefficients(const panda::Image& img, std::size_t n) { V r(n); for ( const auto& t : img ) r[t.first] += t.second; return r; }
   std::size_t lead(const V& e) { std::size_t i = 0; while ( e[i] == 0 ) ++i; return i; }
   /// a form modulo the equations, times the product of the absolute values of their leading coefficients
   V modulo(V v, const M& eqs)
   {
      for ( const auto& e : eqs )
      {
         const auto l = lead(e);
         const Z f = e[l] < 0 ? Z(-v[l]) : v[l], g = zabs(e[l]);
         for ( std::size_t j = 0; j < v.size(); ++j ) v[j] = v[j] * g - e[j] * f;
      }
      return v;
   }
   std::vector<std::size_t> shuffled(std::size_t n)
   {
      std::vector<std::size_t> p(n); for ( std::size_t i = 0; i < n; ++i ) p[i] = i;
      for ( std::size_t i = n; i > 1; --i ) std::swap(p[i - 1], p[rnd(0, i - 1)]);
      return p;
   }
   panda::Map random_map(std::size_t n)
   {
      panda::Map m(n);
      const int kind = rnd(0, 4);
      const auto p = shuffled(n);
      for ( std::size_t i = 0; i < n; ++i )
      {
         if ( kind == 0 ) { m[i].push_back({p[i], static_cast<int>(coin() ? -1 : 1)}); continue; }     // signed permutation
         const long terms = coin(8) ? 0 : rnd(1, kind == 1 ? 2 : 6);
         for ( long k = 0; k < terms; ++k )
         {
            m[i].push_back({static_cast<std::size_t>(rnd(0, n - 1)), static_cast<int>(coin(8) ? 0 : rnd(-4, 4))});
            if ( coin(4) ) m[i].push_back({m[i].back().first, -m[i].back().second});      // terms that cancel
            if ( coin(6) ) m[i].push_back(m[i][rnd(0, m[i].size() - 1)]);
         }
         for ( std::size_t k = m[i].size(); k > 1 && coin(); --k ) std::swap(m[i][k - 1], m[i][rnd(0, k - 1)]);
      }
      return m;
   }
   M random_equations(std::size_t n)
   {
      M eqs;
      const auto p = shuffled(n);
      const long count = coin(5) ? 0 : rnd(1, std::min<long>(n, 4));
      const bool unit = coin(3);
      std::vector<std::size_t> used;
      for ( long k = 0; k < count; ++k )
      {
         V e(n);
         for ( std::size_t j = p[k]; j < n; ++j ) e[j] = coin(3) ? 0 : rnd(-5, 5);
         for ( auto u : used ) e[u] = 0;
         e[p[k]] = unit ? 1 : rnd(1, 5);
         if ( !unit && coin(4) ) e[p[k]] = -e[p[k]];
         used.push_back(p[k]);
         eqs.push_back(e);
      }
      if ( coin() )       // the form extractEquations produces: zero at the leading positions of all the others
      {
         for ( auto& e : eqs ) { const auto l = lead(e); for ( auto u : used ) if ( u != l ) e[u] = 0; }
      }
      return eqs;
   }
}
template <typename T> struct F
{
   static void go()
   {
      const std::size_t n = rnd(1, 6);
      const M eqs = random_equations(n);
      panda::Maps maps;
      std::string txt;
      for ( long k = rnd(1, 3); k > 0; --k ) { maps.push_back(random_map(n)); txt += text(maps.back()) + " "; }
      // no factor leaves the range of int: every substitution multiplies the sum of absolute values at most by this
      for ( const auto& m : maps )
         for ( const auto& i : m )
         {
            Z f = 0; for ( const auto& t : i ) f += zabs(Z(t.second));
            for ( const auto& e : eqs ) { Z g = 0; for ( const auto& z : e ) g += zabs(z); f *= g; }
            if ( f > 2000000000 ) return;
         }
      begin(std::string(name<T>()) + " maps = " + txt + " equations = " + str(eqs));
      guard();
      const auto in = maps;
      const auto out = panda::algorithm::normalize(maps, mat<T>(eqs));
      expect(in == maps, "the input maps are unchanged");
      same(out.size(), in.size(), "number of maps");
      std::vector<bool> elim(n, false);
      for ( const auto& e : eqs ) elim[lead(e)] = true;
      for ( std::size_t k = 0; k < out.size(); ++k )
      {
         const auto& m = out[k];
         same(m.size(), n, "number of images");
         Z num = 0, den = 0;
         for ( std::size_t i = 0; i < n; ++i )
         {
            const std::string what = "map " + std::to_string(k) + " image " + std::to_string(i) + " of " + text(m) + ": ";
            for ( std::size_t j = 0; j < m[i].size(); ++j )
            {
               expect(m[i][j].first < n, what + "index in range");
               expect(!elim[m[i][j].first], what + "no term on an eliminated coordinate");
               expect(j == 0 || m[i][j - 1].first < m[i][j].first, what + "ascending, no index twice");
            }
            if ( elim[i] ) { expect(m[i].empty(), what + "image of an eliminated coordinate is empty"); continue; }
            const V want = modulo(coefficients(in[k][i], n), eqs), got = coefficients(m[i], n);
            for ( std::size_t j = 0; j < n; ++j )
            {
               if ( den == 0 && want[j] != 0 ) { num = got[j]; den = want[j]; expect((num > 0) == (den > 0) && num != 0, what + "a positive multiple of the original form, modulo the equations"); }
               expect(den == 0 ? got[j] == 0 : got[j] * den == want[j] * num, what + "the same positive multiple of the original form in all images, modulo the equations (form " + str(got) + ", original modulo equations " + str(want) + ")");
            }
         }
      }
   }
};
void run() { while ( time_left() ) each_type<F>(); }
