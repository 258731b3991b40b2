// rows, matrices and vertices are printed exactly, and the readers get back what has been printed
#include "files.h"
#include "algorithm_matrix_operations.h"
#include "algorithm_row_operations.h"
#include "input_constraint.h"
#include "input_vertex.h"
#include <algorithm>
#include <sstream>
using namespace drv;
namespace
{
   namespace impl = panda::input::implementation;
   const Z INTMAX = (Z(1) << 31) - 1;
   bool fits(const V& v) { for ( const auto& z : v ) if ( z > INTMAX || z < -INTMAX - 1 ) return false; return true; }
   std::string num(const Z& z) { std::ostringstream o; o << z; return o.str(); }
   std::string plain(const V& v) { std::string o; for ( const auto& z : v ) o += (z < 0 ? " " : "  ") + num(z); return o; }
   std::string named(const V& v, const panda::Names& names, const std::string& rel)
   {
      std::string o; bool first = true;
      for ( std::size_t i = 0; i < names.size(); ++i ) if ( v[i] != 0 )
      {
         if ( !first ) o += " ";
         if ( v[i] == 1 ) o += first ? "" : "+"; else if ( v[i] == -1 ) o += "-"; else o += (v[i] > 0 && !first ? "+" : "") + num(v[i]);
         o += names[i]; first = false;
      }
      return o + " " + rel + " " + num(-v.back());
   }
   std::string text(const V& v, const panda::Names& names, const std::string& rel) { return names.empty() ? plain(v) : named(v, names, rel); }
   std::string fraction(const V& v)
   {
      std::string o; const bool minus = v.back() < 0; const Z d = zabs(v.back());
      for ( std::size_t i = 0; i + 1 < v.size(); ++i ) { const Z n = minus ? Z(-v[i]) : v[i], g = zgcd(n, d); o += num(n / g) + (d / g != 1 ? "/" + num(d / g) : std::string()) + " "; }
      return o;
   }
   panda::Names some_names(std::size_t n)
   {
      static const char head[] = "xyzabXYZ_.&#!E\"'[]{}*/", tail[] = "0123456789xyz_.-+()<=>*[]E";
      panda::Names r;
      while ( r.size() < n )
      {
         std::string w(1, head[rnd(0, sizeof head - 2)]); for ( long i = rnd(0, 4); i > 0; --i ) w += tail[rnd(0, sizeof tail - 2)];
         if ( coin(3) ) w = "x" + std::to_string(r.size() + 1);
         if ( coin(60) ) w += std::string(rnd(20, 60), 'q');
         if ( w.find("DIM") != 0 && std::find(r.begin(), r.end(), w) == r.end() ) r.push_back(w);
      }
      return r;
   }
   template <typename T> bool native_int() { return std::string(name<T>()) == "int32"; }
   /// an entry; now and then one that does not fit an int, if the type has such
   template <typename T> Z entry(bool wide)
   {
      Z lim = INTMAX; if ( Conv<T>::limit() < lim ) lim = Conv<T>::limit();
      if ( wide && Conv<T>::limit() > INTMAX && coin(3) )
      {
         Z w; switch ( rnd(0, 3) ) { case 0: w = INTMAX + rnd(1, 3); break; case 1: w = (Z(1) << 32) + rnd(-2, 2); break; case 2: w = (Z(1) << rnd(32, 62)) + rnd(-5, 5); break; default: w = Z(rnd(1, 1000)) << 32; break; }
         if ( coin() && w != INTMAX + 1 ) w = -w;      // the least int has no opposite
         return w;
      }
      switch ( rnd(0, 6) ) { case 0: case 1: return 0; case 2: return rnd(-1, 1); case 3: return rnd(-12, 12); case 4: return coin() ? lim : Z(-lim); default: { Z z = bounded(lim); return z; } }
   }
   template <typename T> V entries(std::size_t n, bool wide) { V v; for ( std::size_t i = 0; i < n; ++i ) v.push_back(entry<T>(wide)); return v; }
   /// the output, behind what has been there before; empty and thrown if the call has raised an exception
   template <typename G> std::string printed(G g, bool& thrown, std::string& before)
   {
      std::ostringstream s; before = coin() ? "abc " : ""; s << before; thrown = false;
      try { g(s); } catch ( const std::exception& ) { thrown = true; }
      return s.str();
   }
   template <typename G> bool exact(const std::string& what, const std::string& want, bool fit, G g)
   {
      bool thrown; std::string before; const std::string got = printed(g, thrown, before);
      if ( thrown && fit ) fail(what + ": refused");
      if ( !thrown && got != before + want ) fail(what + " prints \"" + shown(got) + "\", expected \"" + shown(before + want) + "\"");
      if ( thrown && got != before ) fail(what + ": refused, but \"" + shown(got) + "\" has been printed");
      return !thrown;
   }
   MI read(const std::string& lines, const panda::Names& names, bool eq)
   {
      std::istringstream s(std::string(eq ? "Equations:\n" : "Inequalities:\n") + lines + (coin() ? "\nEND\n" : ""));
      try { return eq ? impl::constraints<panda::ConstraintType::Equation>(s, names) : impl::constraints<panda::ConstraintType::Inequality>(s, names); }
      catch ( const std::exception& e ) { fail("what has been printed is refused by the reader: \"" + shown(lines) + "\": " + e.what()); }
   }
   template <typename T> struct F
   {
      static void rows()
      {
         const bool with = coin(), eq = coin(), wide = coin(4); const std::size_t n = rnd(1, 6);
         const panda::Names names = with ? some_names(n) : panda::Names();
         const V v = entries<T>(with ? n + 1 : n, wide); const auto r = row<T>(v); const char* rel = eq ? "=" : "<=";
         begin(std::string(name<T>()) + " row = " + str(v) + (with ? " with names, first one " + names[0] : " without names") + " " + rel);
         const bool fit = fits(v); const std::string want = text(v, names, rel);
         const bool ok = exact("prettyPrint", want, fit, [&](std::ostream& o) { panda::algorithm::prettyPrint(o, r, names, rel); });
         exact("prettyPrintln", want + "\n", fit, [&](std::ostream& o) { panda::algorithm::prettyPrintln(o, r, names, rel); });
         if ( !with ) exact("operator<<", want, fit, [&](std::ostream& o) { ::operator<<(o, r); });
         bool zero = with; for ( std::size_t i = 0; i + 1 < v.size(); ++i ) if ( v[i] != 0 ) zero = false;
         if ( ok && fit && !zero ) { const MI back = read(want, names, eq); if ( big(back) != M{v} ) fail("printed as \"" + want + "\", which reads as " + str(back)); }
         if ( unrow<T>(r) != v ) fail("the row has been changed");
      }
      static void matrices()
      {
         const bool with = coin(), eq = coin(), wide = coin(4); const std::size_t n = rnd(1, 4);
         const panda::Names names = with ? some_names(n) : panda::Names();
         M m; std::string want; bool fit = true; const char* rel = eq ? "=" : "<=";
         for ( long i = rnd(0, 5); i > 0; --i ) { V v = entries<T>(with ? n + 1 : n, wide); if ( with ) { bool zero = true; for ( std::size_t j = 0; j < n; ++j ) if ( v[j] != 0 ) zero = false; if ( zero ) v[0] = 1; } m.push_back(v); want += text(v, names, rel) + "\n"; fit = fit && fits(v); }
         begin(std::string(name<T>()) + " matrix = " + str(m) + (with ? " with names" : " without names"));
         const auto a = mat<T>(m);
         bool thrown; std::string before;
         std::string got = printed([&](std::ostream& o) { panda::algorithm::prettyPrint(o, a, names, rel); }, thrown, before);
         if ( thrown ? fit : got != before + want ) fail("the matrix is " + std::string(thrown ? "refused" : "printed as \"" + shown(got) + "\"") + ", expected \"" + shown(want) + "\"");
         if ( !with )
         {
            std::string plainly = printed([&](std::ostream& o) { ::operator<<(o, a); }, thrown, before);
            if ( thrown ? fit : plainly != before + want ) fail("operator<<: the matrix is " + std::string(thrown ? "refused" : "printed as \"" + shown(plainly) + "\"") + ", expected \"" + shown(want) + "\"");
         }
         if ( fit && !m.empty() ) { const MI back = read(want, names, eq); if ( big(back) != m ) fail("printed as \"" + shown(want) + "\", which reads as " + str(back)); }
      }
      static void vertices()
      {
         const std::size_t n = rnd(2, 6); const bool wide = coin(4);
         V v = entries<T>(n, wide); while ( v.back() == 0 ) v.back() = coin() ? Z(rnd(1, 12)) : entry<T>(false);
         if ( coin() ) for ( std::size_t i = 0; i + 1 < n; ++i ) { const Z p = v.back() * rnd(-6, 6); if ( zabs(p) <= std::min(INTMAX, Conv<T>::limit()) ) v[i] = p / (coin() ? 1 : 2); }
         begin(std::string(name<T>()) + " vertex = " + str(v));
         const auto r = row<T>(v); const bool fit = fits(v); const std::string want = fraction(v);
         const bool ok = exact("printFractional", want, fit, [&](std::ostream& o) { panda::algorithm::printFractional(o, r); });
         if ( !ok || !fit ) return;
         Z l = 1; bool small = true; for ( std::size_t i = 0; i + 1 < n; ++i ) { const Z d = zabs(v.back()) / zgcd(v[i], v.back()); l = l / zgcd(l, d) * d; } V w; for ( std::size_t i = 0; i + 1 < n; ++i ) { w.push_back(v[i] * l / v.back()); if ( zabs(w.back()) > INTMAX ) small = false; } w.push_back(l); if ( l > INTMAX ) small = false;
         if ( !small ) return;
         std::istringstream s("Vertices:\n" + want + (coin() ? "\n" : ""));
         try { const MI back = impl::verticesConvex(s); if ( big(back) != M{w} ) fail("printed as \"" + want + "\", which reads as " + str(back) + ", expected " + str(w)); } catch ( const std::exception& e ) { fail("what has been printed is refused by the reader: \"" + want + "\": " + e.what()); }
      }
      static void go() { rows(); rows(); matrices(); vertices(); }
   };
}
void run() { quiet(); while ( time_left() ) each_type<F>(); }
