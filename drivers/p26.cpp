// inconsistent dimensions are rejected, consistent ones are not
#include "files.h"
#include "input_consistency.h"
using namespace drv;
namespace
{
   namespace impl = panda::input::implementation;
   const std::size_t NONE = std::numeric_limits<std::size_t>::max();
   std::vector<int> entries(std::size_t n) { std::vector<int> r(n); for ( auto& x : r ) x = static_cast<int>(rnd(-3, 3)); return r; }
   MI some(std::size_t n, long lo, long hi) { MI m; for ( long c = rnd(lo, hi); c > 0; --c ) m.push_back(entries(n)); return m; }
   std::size_t off(std::size_t n, bool zero = false) { for (;;) { const std::size_t k = rnd(zero ? 0 : 1, 5); if ( k != n ) return k; } }
   bool all_of(const MI& m, std::size_t n) { for ( const auto& r : m ) if ( r.size() != n ) return false; return true; }
   std::string line(const std::vector<int>& r, bool id = true) { std::string o = id ? identifier() : std::string(); for ( std::size_t i = 0; i < r.size(); ++i ) o += (i ? blanks(true) : "") + std::to_string(r[i]); return o + line_end(); }
   /// the checks themselves, on every combination of lengths
   void direct()
   {
      const std::size_t n = rnd(1, 4);
      MI conv = some(n, 0, 3), cone = some(n, 0, 3), ineq = some(n, 0, 3);
      panda::Names names; if ( coin() ) names = some_names(n - 1);
      panda::Maps maps; for ( long c = rnd(0, 3); c > 0; --c ) maps.push_back(panda::Map(n));
      std::size_t dim = coin() ? n - 1 : NONE;
      for ( long c = coin() ? 0 : rnd(1, 2); c > 0; --c ) switch ( rnd(0, 5) )
      {
         case 0: if ( !conv.empty() ) conv[rnd(0, conv.size() - 1)].resize(off(n, true)); break;
         case 1: if ( !cone.empty() ) cone[rnd(0, cone.size() - 1)].resize(off(n, true)); break;
         case 2: if ( !ineq.empty() ) ineq[rnd(0, ineq.size() - 1)].resize(off(n, true)); break;
         case 3: if ( !maps.empty() ) maps[rnd(0, maps.size() - 1)].resize(off(n, true)); break;
         case 4: names = some_names(off(n) - 1); break;
         default: dim = off(n) - 1; break;
      }
      std::string t = "convex " + str(conv) + ", cone " + str(cone) + ", inequalities " + str(ineq) + ", " + std::to_string(names.size()) + " names, lengths of maps";
      for ( const auto& m : maps ) t += " " + std::to_string(m.size());
      begin(t + ", dimension " + (dim == NONE ? std::string("not declared") : std::to_string(dim)));
      auto ok = [&](const MI& a, const MI& b, const MI& c, bool with_maps) -> bool
      {
         if ( a.empty() && b.empty() ) return false;
         const std::size_t w = a.empty() ? b[0].size() : a[0].size();
         if ( !all_of(a, w) || !all_of(b, w) || !all_of(c, w) ) return false;
         if ( with_maps ) for ( const auto& m : maps ) if ( m.size() != w ) return false;
         if ( !names.empty() && names.size() + 1 != w ) return false;
         return dim == NONE || dim + 1 == w;
      };
      same(raises([&] { impl::checkConsistency(conv, cone, ineq, names, maps, dim); }), !ok(conv, cone, ineq, true), "check of vertices, rays and inequalities raises");
      same(raises([&] { impl::checkConsistency(conv, cone, names, maps, dim); }), !ok(conv, cone, {}, true), "check of vertices and rays raises");
      same(raises([&] { impl::checkConsistency(ineq, names, dim); }), !ok(ineq, {}, {}, false), "check of inequalities raises");
      same(raises([&] { impl::checkConsistency(conv); }), conv.empty() || !all_of(conv, conv[0].size()), "check of vertices raises");
   }
   struct File
   {
      bool named = false, declared = false, unknown = false; L names; std::size_t dim = 0; std::vector<L> maps; bool map_section = false;
      std::string head() const
      {
         std::string t;
         std::string d = declared ? (coin() ? "DIM=" : coin() ? "DIM = " : coin() ? "Dimension=" : "DIMENSION = ") + std::to_string(dim) + "\n" : std::string();
         if ( coin() ) t += d;
         if ( named ) { t += keyword(KW_NAMES) + "\n"; for ( const auto& x : names ) t += x + " "; t += "\n"; }
         if ( map_section ) { t += keyword(KW_MAPS) + "\n"; for ( const auto& m : maps ) { for ( std::size_t i = 0; i < m.size(); ++i ) t += (i ? blanks(true) : "") + m[i]; t += line_end(); } }
         if ( t.find(d) == std::string::npos || (!d.empty() && t.empty()) ) t += d;
         return t;
      }
      bool ok(std::size_t w) const
      {
         if ( unknown ) return false;
         if ( named && !names.empty() && names.size() + 1 != w ) return false;
         if ( declared && dim + 1 != w ) return false;
         for ( const auto& m : maps ) if ( m.size() != names.size() || names.size() + 1 != w ) return false;
         return true;
      }
   };
   L images(const L& names) { L m = names; for ( std::size_t i = m.size(); i > 1; --i ) std::swap(m[i - 1], m[rnd(0, i - 1)]); return m; }
   File file(std::size_t n)
   {
      File f;
      f.named = coin(); f.declared = coin();
      f.dim = n; if ( coin(8) ) f.dim = off(n, true);
      if ( f.named ) f.names = some_names(coin(8) ? off(n) : n);
      f.map_section = f.named ? coin() : coin(8);
      if ( f.map_section ) for ( long c = rnd(f.named ? 0 : 1, 2); c > 0; --c )
      {
         L m = f.named ? images(f.names) : images(some_names(n));
         if ( coin(8) ) m.resize(off(m.size()), m[0]);
         if ( f.named && coin(12) ) { static const char* bad[] = {"q", "-q", "2q", "q1", "+q-1"}; std::string& x = m[rnd(0, m.size() - 1)]; x = coin(3) ? x + "-q" : coin(3) ? "q+" + x : bad[rnd(0, 4)]; f.unknown = true; }
         f.maps.push_back(m);
      }
      return f;
   }
   void change(MI& m, std::size_t n) { if ( !m.empty() && coin(5) ) m[rnd(0, m.size() - 1)].resize(off(n), 1); }
   std::size_t width(const MI& a, const MI& b) { return a.empty() ? (b.empty() ? 0 : b[0].size()) : a[0].size(); }
   L arguments(bool known)
   {
      L a{"panda", "f"};
      if ( known ) { if ( coin() ) { a.push_back("-k"); a.push_back("k"); } else a.push_back("--known-data=k"); }
      if ( coin() ) { a.push_back("-s"); a.push_back(coin() ? "lex_asc" : "nz_desc"); }
      return a;
   }
   template <typename F> void compare(bool good, F f)
   {
      bool r = false; std::string why;
      try { f(); } catch ( const std::exception& e ) { r = true; why = e.what(); }
      if ( r && good ) fail("consistent input is rejected: " + why);
      if ( !r && !good ) fail("inconsistent input is accepted");
   }
   void vertices()
   {
      const std::size_t n = rnd(1, 4);
      const File f = file(n);
      MI conv = some(n, 0, 3), cone = some(n, 0, 2);
      change(conv, n); change(cone, n);
      const bool rconv = f.map_section && coin(), rcone = f.map_section && coin();
      std::string t = f.head(), a = keyword(rconv ? KW_RCONV : KW_CONV) + "\n", b = keyword(rcone ? KW_RCONE : KW_CONE) + "\n";
      for ( const auto& r : conv ) a += line(r);
      for ( const auto& r : cone ) b += line(r);
      t += coin() ? a + b : b + a;
      const bool known = coin(3);
      MI k = some(n + 1, 1, 2); change(k, n + 1);
      std::string kt = keyword(KW_INEQ) + "\n"; for ( const auto& r : k ) kt += line(r, !f.named);   // an identifier may contain a name
      const L args = arguments(known);
      begin("arguments " + str(args) + ", file f: " + shown(t) + (known ? ", file k: " + shown(kt) : ""));
      write_file("f", t); write_file("k", kt);
      const std::size_t w = width(conv, cone) + 1;
      bool good = (!conv.empty() || !cone.empty()) && all_of(conv, w - 1) && all_of(cone, w - 1) && f.ok(w) && (!known || all_of(k, w));
      // a reduced section needs a map to be expanded
      if ( (rconv || rcone) && f.maps.empty() ) good = false;
      Args ar(args);
      compare(good, [&]
      {
         const auto d = panda::input::vertices<int>(ar.argc(), ar.argv());
         const auto& rows = std::get<0>(d);
         if ( good && (!all_of(rows, w) || rows.empty() || !all_of(std::get<3>(d), w) || std::get<1>(d).size() != f.names.size()) ) fail("rows of another length are returned: " + str(rows));
         if ( good ) for ( const auto& m : std::get<2>(d) ) if ( m.size() != w ) fail("a map of another length is returned");
      });
   }
   void inequalities()
   {
      const std::size_t n = rnd(1, 4);
      File f = file(n);
      const bool names_used = f.named && coin();
      MI eq = some(n + 1, 0, coin() ? 0 : 2), iq = some(n + 1, 0, 3);
      if ( names_used ) { for ( auto m : {&eq, &iq} ) for ( auto& r : *m ) r.resize(f.names.size() + 1, 1); }
      else { change(eq, n + 1); change(iq, n + 1); }
      const bool reduced = f.map_section && coin(3) && eq.empty();
      std::string t = f.head(), te, ti = keyword(reduced ? KW_RINEQ : KW_INEQ) + "\n";
      auto text = [&](const std::vector<int>& r, bool e) { return names_used ? named(r, f.names, e ? "=" : "<=") + "\n" : line(r, !f.named); };
      if ( !eq.empty() ) { te = keyword(KW_EQ) + "\n"; for ( const auto& r : eq ) te += text(r, true); }
      for ( const auto& r : iq ) ti += text(r, false);
      if ( f.named && !names_used )   // numbers only: a keyword behind the rows could be taken for a name
      {
         for ( const auto& x : f.names ) if ( (t + te + ti).substr((t.size())).find(x) != std::string::npos ) return;
      }
      t += reduced || coin() ? te + ti : ti + te;
      const bool known = coin(3);
      MI kc = some(n, 0, 2), kr = some(n, 0, 2); change(kc, n); change(kr, n);
      std::string kt = keyword(KW_CONV) + "\n"; for ( const auto& r : kc ) kt += line(r);
      kt += keyword(KW_CONE) + "\n"; for ( const auto& r : kr ) kt += line(r);
      const L args = arguments(known);
      begin("arguments " + str(args) + ", file f: " + shown(t) + (known ? ", file k: " + shown(kt) : ""));
      write_file("f", t); write_file("k", kt);
      const std::size_t w = width(iq, {});
      bool good = !iq.empty() && all_of(iq, w) && all_of(eq, w) && f.ok(w) && (!known || (all_of(kc, w - 1) && all_of(kr, w - 1)));
      if ( reduced && f.maps.empty() ) good = false;
      Args ar(args);
      compare(good, [&]
      {
         const auto d = panda::input::inequalities<int>(ar.argc(), ar.argv());
         const auto& rows = std::get<0>(d);
         if ( good && (!all_of(rows, w) || rows.empty() || !all_of(std::get<3>(d), w) || std::get<1>(d).size() != f.names.size()) ) fail("rows of another length are returned: " + str(rows));
         if ( good ) for ( const auto& m : std::get<2>(d) ) if ( m.size() != w ) fail("a map of another length is returned");
      });
   }
}
void run()
{
   quiet();
   while ( time_left() ) { guard(); direct(); vertices(); inequalities(); }
}
