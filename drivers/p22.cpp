// what the readers make of the rows of an input file: order, opposite directions of equations, classes of reduced sections
#include "files.h"
#include <algorithm>
using namespace drv;
namespace
{
   struct Order { const char* arg; int kind; };   // 0 as given, 1 lex asc, 2 lex desc, 3 nonzero asc, 4 nonzero desc, 5 reverse
   const Order ORDERS[] = {{"lex_asc", 1}, {"lexicographic_ascending", 1}, {"lex_desc", 2}, {"lexicographic_descending", 2}, {"nz_asc", 3}, {"nonzero_ascending", 3}, {"nz_desc", 4}, {"nonzero_descending", 4}, {"rev", 5}, {"reverse", 5}};
   long nonzero(const std::vector<int>& r) { long c = 0; for ( int x : r ) c += x != 0; return c; }
   bool ordered(const MI& got, const MI& given, int kind)
   {
      if ( kind == 0 ) return got == given;
      if ( kind == 5 ) { MI r(given.rbegin(), given.rend()); return got == r; }
      for ( std::size_t i = 0; i + 1 < got.size(); ++i )
      {
         const auto& a = got[i]; const auto& b = got[i + 1];
         if ( kind == 1 && b < a ) return false;
         if ( kind == 2 && a < b ) return false;
         if ( kind == 3 && nonzero(b) < nonzero(a) ) return false;
         if ( kind == 4 && nonzero(a) < nonzero(b) ) return false;
      }
      return true;
   }
   MI sorted(MI m) { std::sort(m.begin(), m.end()); return m; }
   int kind_;
   L arguments(bool file_first)
   {
      L a{"panda"};
      if ( file_first ) a.push_back("f");
      const int how = rnd(0, 6);
      kind_ = 0;
      if ( how > 0 )
      {
         const Order& o = ORDERS[rnd(0, 9)]; kind_ = o.kind;
         if ( how <= 2 ) { a.push_back("-s"); a.push_back(o.arg); }
         
         else a.push_back(std::string("--sorting=") + o.arg);
      }
      if ( coin(4) ) { if ( coin() ) a.push_back("--method=dd"); else { a.push_back("-t"); a.push_back("2"); } }
      if ( coin(4) && how > 0 ) { const Order& o = ORDERS[rnd(0, 9)]; a.push_back(std::string("--sorting=") + o.arg); }   // the first one counts
      if ( !file_first ) a.push_back("f");
      return a;
   }
   void check_order(const MI& got, const MI& given, const std::string& what)
   {
      if ( sorted(got) != sorted(given) ) fail(what + ": not the rows given: got " + str(got) + ", expected (in some order) " + str(given));
      if ( !ordered(got, given, kind_) ) fail(what + ": got " + str(got) + ", which is not in the order asked for (rows given: " + str(given) + ")");
   }
   MI rows(std::size_t n, long lo, long hi, long e)
   {
      if ( hi < lo ) hi = lo;
      MI m; for ( long c = rnd(lo, hi); c > 0; --c ) { std::vector<int> r(n); for ( auto& x : r ) x = static_cast<int>(rnd(-e, e)); if ( coin(5) ) for ( auto& x : r ) if ( coin() ) x = 0; m.push_back(r); }
      if ( !m.empty() && coin(3) ) m.push_back(m[rnd(0, m.size() - 1)]);
      return m;
   }
   /// maps: a permutation of the coordinates with signs
   struct Perm { std::vector<std::size_t> p; std::vector<int> s; };
   Perm perm(std::size_t n, bool signs)
   {
      Perm m; m.p.resize(n); m.s.assign(n, 1);
      for ( std::size_t i = 0; i < n; ++i ) m.p[i] = i;
      for ( std::size_t i = n; i > 1; --i ) std::swap(m.p[i - 1], m.p[rnd(0, i - 1)]);
      if ( signs ) for ( auto& x : m.s ) if ( coin(3) ) x = -1;
      return m;
   }
   std::string map_text(const Perm& m, const L& names)
   {
      std::string o; for ( std::size_t i = 0; i < names.size(); ++i ) o += (i ? blanks(true) : blanks(false)) + (m.s[i] < 0 ? "-" : coin(9) ? "+" : "") + (coin(9) ? "1" : "") + names[m.p[i]]; return o;
   }
   V image(const Perm& m, const V& r, bool vertex)
   {
      V o(r.size()); o.back() = r.back();
      for ( std::size_t i = 0; i + 1 < r.size(); ++i ) if ( vertex ) o[i] = m.s[i] * r[m.p[i]]; else o[m.p[i]] += m.s[i] * r[i];
      const Z g = vgcd(o); if ( g > 1 ) for ( auto& x : o ) x /= g;
      return o;
   }
   V reduce(V r, const M& eq)      // eq: reduced echelon over the rationals, scaled; result primitive with the sign of r
   {
      for ( const auto& e : eq )
      {
         std::size_t l = 0; while ( e[l] == 0 ) ++l;
         if ( r[l] != 0 ) { const Z c = r[l], a = e[l] < 0 ? Z(-e[l]) : e[l], b = e[l] < 0 ? Z(-c) : c; for ( std::size_t j = 0; j < r.size(); ++j ) r[j] = r[j] * a - e[j] * b; }
      }
      const Z g = vgcd(r); if ( g > 1 ) for ( auto& x : r ) x /= g;
      return r;
   }
   M echelon(const M& m)
   {
      M e;
      for ( auto r : m )
      {
         r = reduce(r, e);
         bool zero = true; for ( const auto& x : r ) if ( x != 0 ) zero = false;
         if ( zero ) continue;
         for ( auto& q : e ) q = reduce(q, M{r});
         e.push_back(r);
      }
      return e;
   }
   std::set<V> orbit(const V& r, const std::vector<Perm>& maps, bool vertex, const M& eq)
   {
      std::set<V> s{vertex ? r : reduce(r, eq)};   // vertices and rays are taken as given
      std::vector<V> todo(s.begin(), s.end());
      while ( !todo.empty() ) { const V x = todo.back(); todo.pop_back(); for ( const auto& m : maps ) { const V i = reduce(image(m, x, vertex), eq); if ( s.insert(i).second ) todo.push_back(i); } }
      return s;
   }
   /// got must be the concatenation of the classes of the rows, each class in any order
   void check_classes(MI got, const MI& given, const std::vector<Perm>& maps, bool vertex, const M& eq, const std::string& what)
   {
      M all;
      for ( const auto& r : given ) for ( const auto& x : orbit(big(r), maps, vertex, eq) ) all.push_back(x);
      M have; for ( const auto& r : got ) have.push_back(vertex ? big(r) : reduce(big(r), eq));
      M a = all, h = have; std::sort(a.begin(), a.end()); std::sort(h.begin(), h.end());
      if ( a != h ) fail(what + ": the classes of the rows given" + (eq.empty() ? "" : " (modulo the equations)") + " are " + str(a) + ", got " + str(h));
      MI o = got;
      if ( kind_ == 5 ) std::reverse(o.begin(), o.end());
      if ( kind_ == 0 || kind_ == 5 )
      {
         std::size_t at = 0;
         for ( const auto& r : given )
         {
            const auto c = orbit(big(r), maps, vertex, eq); std::set<V> s;
            for ( std::size_t i = 0; i < c.size(); ++i ) s.insert(vertex ? big(o[at + i]) : reduce(big(o[at + i]), eq));
            at += c.size();
            if ( s != c ) fail(what + ": the classes are not in the order of the rows given: got " + str(got));
         }
      }
      else if ( !ordered(got, got, kind_) ) fail(what + ": got " + str(got) + ", which is not in the order asked for");
   }
   MI transformed(const MI& m) { MI r; for ( auto x : m ) { x.push_back(1); r.push_back(x); } return r; }
   std::string plain(const std::vector<int>& r, bool conv)
   {
      std::string o = identifier() + blanks(false);
      for ( std::size_t i = 0; i < r.size(); ++i ) { if ( i ) o += blanks(true); o += std::to_string(r[i]); if ( conv && coin(20) ) o += "/1"; }
      return o;
   }
   void vertices()
   {
      const std::size_t n = rnd(1, 4);
      const bool named_ = coin(), maps_ = named_ && coin();
      const L names = named_ ? some_names(n) : L{};
      std::vector<Perm> ms; if ( maps_ ) for ( long c = rnd(1, 2); c > 0; --c ) ms.push_back(perm(n, coin(3)));
      const bool rconv = maps_ && coin(), rcone = maps_ && coin();
      const MI conv = rows(n, 0, 4, 3); MI cone = rows(n, conv.empty() ? 1 : 0, coin() ? 0 : 3, 3);
      std::string t;
      if ( coin(5) ) t += (coin() ? "DIM=" : "DIM = ") + std::to_string(n) + "\n";
      if ( named_ ) { t += keyword(KW_NAMES) + "\n"; for ( std::size_t i = 0; i < n; ++i ) t += names[i] + (i + 1 < n ? (coin(6) ? "\n" : " ") : "\n"); }
      if ( maps_ ) { t += keyword(KW_MAPS) + "\n"; for ( const auto& m : ms ) t += map_text(m, names) + "\n"; if ( coin(4) ) t += "END\n"; }
      std::string a = keyword(rconv ? KW_RCONV : KW_CONV) + (coin(4) ? ":" : "") + "\n", b = keyword(rcone ? KW_RCONE : KW_CONE) + "\n";
      for ( const auto& r : conv ) a += plain(r, true) + line_end();
      for ( const auto& r : cone ) b += plain(r, false) + line_end();
      if ( cone.empty() && coin() ) b = "";
      const bool first = coin();
      t += first ? a + b : b + a;
      if ( coin(3) ) t += "END\n";
      const L args = arguments(coin());
      begin("arguments " + str(args) + ", file f: " + shown(t));
      write_file("f", t);
      Args ar(args);
      if ( conv.empty() && cone.empty() ) return;
      MI got;
      try { got = std::get<0>(panda::input::vertices<int>(ar.argc(), ar.argv())); }
      catch ( const std::exception& e ) { fail(std::string("valid input is rejected: ") + e.what()); }
      // rays first
      MI rays, points; bool in_points = false;
      for ( const auto& r : got )
      {
         if ( r.empty() || r.size() != n + 1 ) fail("a row of another length: " + str(got));
         if ( r.back() != 0 ) in_points = true;
         if ( in_points && r.back() == 0 ) fail("a ray behind a vertex: " + str(got));
         (in_points ? points : rays).push_back(r);
      }
      MI vs = transformed(conv), rs = cone; for ( auto& r : rs ) r.push_back(0);
      if ( rconv ) check_classes(points, vs, ms, true, {}, "vertices"); else check_order(points, vs, "vertices");
      if ( rcone ) check_classes(rays, rs, ms, true, {}, "rays"); else check_order(rays, rs, "rays");
   }
   std::string constraint(const std::vector<int>& r, const L& names, bool eq)
   {
      if ( !names.empty() ) { const bool flip = !eq && coin(); return identifier() + named(r, names, eq ? (coin() ? "=" : "==") : flip ? ">=" : "<=", flip); }
      std::string o = identifier(); const bool rel = coin(3);
      for ( std::size_t i = 0; i + 1 < r.size(); ++i ) o += std::to_string(r[i]) + " ";
      return rel ? o + (eq ? "= " : "<= ") + std::to_string(-r.back()) : o + std::to_string(r.back());
   }
   void inequalities()
   {
      const std::size_t n = rnd(1, 4);
      const bool named_ = coin(3) != 0, reduced = named_ && coin(3);
      const L names = named_ ? some_names(n) : L{};
      std::vector<Perm> ms; if ( reduced || (named_ && coin(4)) ) for ( long c = rnd(1, 2); c > 0; --c ) ms.push_back(perm(n, coin(4)));
      MI eq = rows(n + 1, 0, coin() ? 0 : 2, 2);
      if ( named_ )   // a constraint without any name cannot be told from the notation without names
         for ( auto& r : eq ) { bool z = true; for ( std::size_t i = 0; i < n; ++i ) if ( r[i] ) z = false; if ( z ) r[rnd(0, n - 1)] = 1; }
      if ( reduced && !eq.empty() )
      {  // closed under the maps
         eq.resize(1);
         for ( std::size_t k = 0; k < eq.size(); ++k ) for ( const auto& m : ms ) { V v = big(eq[k]); if ( vgcd(v) == 0 ) continue; M e = echelon(big(eq)); const V i = image(m, v, false); V z = reduce(i, e); if ( vgcd(z) != 0 ) eq.push_back(ints(i)); }
         M e = echelon(big(eq));
         for ( const auto& r : e ) { bool c = true; for ( std::size_t i = 0; i < n; ++i ) if ( r[i] != 0 ) c = false; if ( c ) { eq.clear(); break; } }   // 0 = 1
         for ( const auto& r : e ) if ( vmax(r) > 50 ) { eq.clear(); break; }
      }
      const M ech = echelon(big(eq));
      MI iq = rows(n + 1, 1, 4, 3);
      if ( reduced ) for ( auto& r : iq ) if ( vgcd(reduce(big(r), ech)) == 0 ) return;
      std::string t;
      if ( coin(5) ) t += "DIM=" + std::to_string(n) + "\n";
      if ( named_ ) { t += keyword(KW_NAMES) + "\n"; for ( std::size_t i = 0; i < n; ++i ) t += names[i] + (i + 1 < n ? " " : "\n"); }
      std::string tm, te, ti = keyword(reduced ? KW_RINEQ : KW_INEQ) + "\n";
      if ( !ms.empty() ) { tm = keyword(KW_MAPS) + "\n"; for ( const auto& m : ms ) tm += map_text(m, names) + "\n"; }
      if ( !eq.empty() || coin(4) ) { te = keyword(KW_EQ) + "\n"; for ( const auto& r : eq ) te += constraint(r, names, true) + line_end(); }
      for ( const auto& r : iq ) ti += constraint(r, names, false) + line_end();
      if ( coin(3) ) ti += "END\n";
      t += coin() ? tm + te : te + tm;
      if ( !reduced && coin() ) t += ti, t.find("x") == 0 ? t : t; else t += ti;
      const L args = arguments(coin());
      begin("arguments " + str(args) + ", file f: " + shown(t));
      write_file("f", t);
      Args ar(args);
      MI got;
      try { got = std::get<0>(panda::input::inequalities<int>(ar.argc(), ar.argv())); }
      catch ( const std::exception& e ) { fail(std::string("valid input is rejected: ") + e.what()); }
      std::vector<int> trivial(n + 1, 0); trivial.back() = -1;
      if ( got.empty() || got.back() != trivial ) fail("the trivial inequality is not the last row: " + str(got));
      got.pop_back();
      MI both; for ( const auto& r : eq ) { both.push_back(r); auto m = r; for ( auto& x : m ) x = -x; both.push_back(m); }
      if ( !reduced ) { MI all = iq; all.insert(all.end(), both.begin(), both.end()); check_order(got, all, "inequalities"); return; }
      // take the rows of the equations out, one occurrence each
      if ( kind_ != 0 && kind_ != 5 && !ordered(got, got, kind_) ) fail("inequalities: got " + str(got) + ", which is not in the order asked for");
      MI rest = got;
      if ( kind_ == 5 )
      {  // the equations come first, reversed
         MI head(rest.begin(), rest.begin() + std::min(both.size(), rest.size())), want(both.rbegin(), both.rend());
         if ( head != want ) fail("inequalities: the directions of the equations are missing or misplaced: " + str(got));
         rest.erase(rest.begin(), rest.begin() + both.size());
      }
      else if ( kind_ == 0 )
      {
         MI tail(rest.end() - std::min(both.size(), rest.size()), rest.end());
         if ( tail != both ) fail("inequalities: the directions of the equations are missing or misplaced: " + str(got));
         rest.resize(rest.size() - both.size());
      }
      else for ( const auto& b : both )
      {
         const auto it = std::find(rest.begin(), rest.end(), b);
         if ( it == rest.end() ) fail("inequalities: the direction " + str(b) + " of an equation is missing: " + str(got));
         rest.erase(it);
      }
      check_classes(rest, iq, ms, false, ech, "inequalities");
   }
   void unknown_order()
   {
      static const char* bad[] = {"", "l", "le", "lexi", "lexicographi", "ascending", "asc", "n", "n_asc", "nonzer", "re", "revers", "reversed", "rev_asc", "none", "0", "lexasc", "lex-asc", "nzasc", "nonzero-asc", "LEX_ASC"};
      const std::string o = bad[rnd(0, 20)];
      L a{"panda", "f"};
      const int how = rnd(0, 3);
      if ( how == 0 ) { a.push_back("-s"); a.push_back(o); } else if ( how == 2 ) a.push_back("--sorting=" + o); else a.push_back(coin() ? "-s" : coin() ? "--sort=lex_asc" : "-sorting=lex_asc");
      const std::string t = "Vertices\n0 1\n1 0\n0 0\n";
      begin("arguments " + str(a) + ", file f: " + shown(t));
      write_file("f", t);
      Args ar(a);
      same(raises([&] { panda::input::vertices<int>(ar.argc(), ar.argv()); }), true, "an unknown or missing name of an order raises");
   }
}
void run()
{
   quiet();
   while ( time_left() ) { guard(); vertices(); inequalities(); if ( coin(5) ) unknown_order(); }
}
