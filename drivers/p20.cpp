// vertices and rays read from text, against a reader of its own
#include "files.h"
#include "input_common.h"
#include "input_keywords.h"
#include "input_vertex.h"
#include "istream_peek_line.h"
#include <algorithm>
#include <sstream>
using namespace drv;
namespace
{
   namespace impl = panda::input::implementation;
   const L WORDS_CONV{"CONV_SECTION", "CONV_SECTION:", "CONVEX_HULL", "CONVEX_HULL:", "CONVEX_HULL_SECTION", "CONVEX_HULL_SECTION:", "Vertices", "Vertices:", "REDUCED_CONV_SECTION", "REDUCED_CONV_SECTION:", "REDUCED_CONVEX_HULL", "REDUCED_CONVEX_HULL:", "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONVEX_HULL_SECTION:", "Reduced Vertices", "Reduced Vertices:"},
      WORDS_CONE{"CONE_SECTION", "CONE_SECTION:", "CONICAL_HULL", "CONICAL_HULL:", "CONICAL_HULL_SECTION", "CONICAL_HULL_SECTION:", "Rays", "Rays:", "REDUCED_CONE_SECTION", "REDUCED_CONE_SECTION:", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL:", "REDUCED_CONICAL_HULL_SECTION", "REDUCED_CONICAL_HULL_SECTION:", "Reduced Rays", "Reduced Rays:"},
      WORDS_OTHER{"END", "End", "Names", "Names:", "INDEX", "INDICES:", "Maps", "MAPS:", "MAP_SECTION", "Equations", "EQUATIONS:", "Inequalities", "Inequalities:", "INEQUALITY_SECTION", "REDUCED_INEQUALITIES:", "Reduced Inequalities", "DIM=3", "Dim = 2", "DIMENSION=1", "Dimension", "Reduced"};
   bool blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
   bool is_keyword(const std::string& t)
   {
      for ( const auto* l : {&WORDS_CONV, &WORDS_CONE, &WORDS_OTHER} ) if ( std::find(l->begin(), l->end(), t) != l->end() ) return true;
      std::string d = t.substr(0, t.find('=')); while ( !d.empty() && blank(d.back()) ) d.pop_back();
      return d == "DIM" || d == "Dim" || d == "DIMENSION" || d == "Dimension";
   }
   bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
   std::string trimmed(std::string t) { while ( !t.empty() && blank(t.back()) ) t.pop_back(); std::size_t i = 0; while ( i < t.size() && blank(t[i]) ) ++i; return t.substr(i); }
   /// what a text means
   struct Reader
   {
      const std::string& t; std::size_t p; bool bad = false, overflow = false;
      Reader(const std::string& text, std::size_t pos) : t(text), p(pos) {}
      bool at(char c) const { return p < t.size() && t[p] == c; }
      void spaces() { while ( p < t.size() && space(t[p]) ) ++p; }
      void blanks() { while ( p < t.size() && blank(t[p]) ) ++p; }
      bool eol() const { return p >= t.size() || t[p] == '\n' || t[p] == '\r'; }
      std::size_t end() const { const auto e = t.find('\n', p); return e == std::string::npos ? t.size() : e; }
      std::string line() const { return t.substr(p, end() - p); }
      void next() { p = end(); if ( p < t.size() ) ++p; }
      bool integer(Z& v)
      {
         spaces();
         bool minus = false; if ( at('+') || at('-') ) { minus = at('-'); ++p; }
         if ( p >= t.size() || t[p] < '0' || t[p] > '9' ) return false;
         v = 0; bool big = false;
         for ( ; p < t.size() && t[p] >= '0' && t[p] <= '9'; ++p ) { v = v * 10 + (t[p] - '0'); if ( v > Z(1) << 40 ) big = true; if ( big ) v = Z(1) << 40; }
         if ( minus ) v = -v;
         return v >= -(Z(1) << 31) && v < (Z(1) << 31);
      }
      bool rest(V& r, bool ray)
      {
         blanks();
         V n, d;
         for (;;)
         {
            Z x, y = 1;
            if ( !integer(x) ) { bad = true; return true; }
            blanks();
            if ( at('/') ) { ++p; blanks(); if ( eol() || !integer(y) || y == 0 ) { bad = true; return true; } blanks(); }
            n.push_back(x); d.push_back(y);
            if ( eol() ) break;
         }
         Z l = 1; for ( const Z& x : d ) { const Z a = x < 0 ? -x : x; l = l / gcdz(l, a) * a; if ( l > (Z(1) << 31) - 1 || a > (Z(1) << 31) - 1 ) { overflow = true; return true; } }
         r.clear();
         for ( std::size_t i = 0; i < n.size(); ++i ) { r.push_back(n[i] * (l / d[i])); if ( r.back() < -(Z(1) << 31) || r.back() >= (Z(1) << 31) ) overflow = true; }
         r.push_back(ray ? Z(0) : l);
         return true;
      }
      static Z gcdz(Z a, Z b) { while ( b != 0 ) { const Z c = a % b; a = b; b = c; } return a; }
      /// an identifier at the position: false if it is not closed on the line
      bool identifier(std::string& id)
      {
         ++p; blanks(); const auto a = p;
         while ( p < t.size() && t[p] != ')' && t[p] != '\n' && t[p] != '\r' ) ++p;
         id = trimmed(t.substr(a, p - a));
         if ( !at(')') ) return false;
         ++p;
         return true;
      }
      bool full(V& r, bool ray)
      {
         spaces();
         if ( p >= t.size() ) return false;
         std::string id;
         if ( at('(') && !identifier(id) ) { bad = true; return true; }
         return rest(r, ray);
      }
   };
   std::string number()
   {
      if ( coin(40) ) return std::to_string(coin() ? 2147483647L - rnd(0, 3) : -2147483648L + rnd(0, 3));
      if ( coin(60) ) return std::to_string(coin() ? 2147483648L + rnd(0, 3) : -2147483649L - rnd(0, 3));
      std::string o = coin(9) ? "+" : coin(3) ? "-" : "";
      if ( coin(20) ) o += "0";
      return o + std::to_string(rnd(0, coin(4) ? 1000 : 9));
   }
   std::string coordinate() { std::string o = number(); if ( coin(3) ) { o += blanks(false) + "/" + blanks(false); o += coin(10) ? number() : (coin(5) ? "-" : "") + std::to_string(rnd(1, 12)); } return o; }
   std::string row()
   {
      std::string o = blanks(false) + identifier();
      for ( long i = rnd(1, 4); i > 0; --i ) o += coordinate() + (i > 1 ? blanks(true) : blanks(false));
      return o;
   }
   std::string spoiled(std::string r)
   {
      static const char* bad[] = {"x", ".", "1.5", "/", "1/", "/2", "1/0", "1//2", "-", "+", "--1", "1-", "2147483648", "-2147483649", "99999999999999999999", "1e2", "(", "(1", "1)", "abc", "1/x", "1/2/3", "0x1", "1,2", "1/99999999999", ";", "#", "\xe9"};
      const std::string b = bad[rnd(0, 27)];
      const auto k = rnd(0, r.size());
      return r.substr(0, k) + (coin() ? " " : "") + b + (coin() ? " " : "") + r.substr(k);
   }
   std::string eol() { return coin(8) ? "\r\n" : coin(8) ? "\n\n" : coin(10) ? " \n" : coin(12) ? "\n \t\n" : coin(20) ? "\n\r\n" : "\n"; }
   std::string text(const L& words, bool raw)
   {
      std::string o;
      if ( !raw ) o = (coin(8) ? blanks(true) : "") + (coin(20) ? keyword(WORDS_OTHER) : keyword(words)) + eol();
      const bool spoil = coin(3);
      for ( long i = rnd(0, 4); i > 0; --i )
      {
         std::string r = row();
         if ( spoil && coin() ) r = spoiled(r);
         o += r + (i == 1 && coin(3) ? "" : eol());
      }
      if ( !raw && coin() ) { if ( o.back() != '\n' && !coin(6) ) o += "\n"; o += blanks(false) + keyword(coin(3) ? WORDS_CONV : WORDS_OTHER); if ( coin(4) ) o += " x"; if ( !coin(3) ) o += eol() + (coin() ? row() : "") ; }
      return o;
   }
   std::string soup(const L& words, bool raw)
   {
      static const char c[] = "0123456789--+//() \t\n\n\r aE.";
      std::string o = raw ? "" : keyword(words) + "\n";
      for ( long i = rnd(0, 14); i > 0; --i ) o += c[rnd(0, sizeof c - 2)];
      return o;
   }
   void one(int kind)      // 0 vertices, 1 rays, 2 rows without a keyword
   {
      const L& words = kind == 1 ? WORDS_CONE : WORDS_CONV;
      const std::string t = coin(3) ? soup(words, kind == 2) : text(words, kind == 2);
      begin(std::string(kind == 0 ? "vertices" : kind == 1 ? "rays" : "rows without keyword") + ": " + shown(t));
      Reader r(t, 0);
      M want; std::size_t stop = t.size(); bool atend = true;
      if ( kind != 2 )
      {
         if ( t.empty() || std::find(words.begin(), words.end(), trimmed(r.line())) == words.end() ) r.bad = true;
         r.next();
      }
      while ( !r.bad && !r.overflow && r.p < t.size() )
      {
         if ( kind != 2 )
         {
            const std::string l = trimmed(r.line());
            if ( is_keyword(l) )
            {
               atend = false; stop = r.p;
               if ( l == "END" || l == "End" ) { r.next(); stop = r.p; }
               break;
            }
            if ( l.empty() ) { r.next(); continue; }
         }
         V v; if ( !r.full(v, kind == 1) ) break;
         want.push_back(v);
      }
      if ( r.overflow ) return;      // beyond the range of int
      std::istringstream s(t);
      bool refused = false; MI got; std::string why;
      try { got = kind == 0 ? impl::verticesConvex(s) : kind == 1 ? impl::verticesConical(s) : impl::vertices(s); } catch ( const std::exception& e ) { refused = true; why = e.what(); }
      if ( refused && !r.bad ) fail("well-formed rows are refused: " + why);
      if ( !refused && r.bad ) fail("malformed input is accepted as " + str(got));
      if ( refused ) return;
      if ( big(got) != want ) fail("the rows read are " + str(got) + ", expected " + str(want));
      if ( kind == 2 ) return;
      if ( atend ) same(static_cast<bool>(s), false, "something is left to be read");
      else { s.clear(); const long at = static_cast<long>(s.tellg()); if ( at != static_cast<long>(stop) ) fail("the reader stops at character " + std::to_string(at) + ", expected " + std::to_string(stop)); }
   }
   /// the helpers
   void helpers()
   {
      static const char c[] = "()  \t\n\r ab1";
      std::string t; for ( long i = rnd(0, 10); i > 0; --i ) t += c[rnd(0, sizeof c - 2)];
      begin("text: " + shown(t));
      std::string line = t.substr(0, t.find('\n'));
      { std::istringstream s(t); if ( panda::peekLine(s) != line ) fail("peekLine gives another line"); if ( !t.empty() && (!s || s.tellg() != 0) ) fail("peekLine consumes characters"); }
      if ( panda::input::trimWhitespace(t) != trimmed(t) ) fail("trimWhitespace gives \"" + shown(panda::input::trimWhitespace(t)) + "\"");
      const std::string u = trimmed(t), w = u.substr(0, u.find_first_of(" \t"));
      if ( panda::input::firstWord(t) != w ) fail("firstWord gives \"" + shown(panda::input::firstWord(t)) + "\"");
      { std::istringstream s(t); Reader r(t, 0); r.blanks(); panda::input::skipWhitespace(s); if ( static_cast<std::size_t>(s.tellg()) != r.p ) fail("skipWhitespace stops elsewhere"); }
      if ( !t.empty() && t[0] == '(' )
      {
         std::istringstream s(t); Reader r(t, 0); std::string id, got; const bool ok = r.identifier(id); bool refused = false;
         try { got = panda::input::identifier(s); } catch ( const std::exception& ) { refused = true; }
         if ( refused == ok ) fail(ok ? "an identifier is refused" : "an identifier that is not closed is accepted");
         if ( ok && (got != id || static_cast<std::size_t>(s.tellg()) != r.p) ) fail("the identifier is \"" + shown(got) + "\", expected \"" + shown(id) + "\"");
      }
      const std::string k = coin(4) ? t : keyword(coin() ? WORDS_OTHER : coin() ? WORDS_CONV : WORDS_CONE) + (coin(3) ? ":" : coin(5) ? "x" : "");
      begin("line: " + shown(k));
      const bool known = is_keyword(k) || (k.size() > 1 && k.back() == ':' && is_keyword(k) );
      if ( known && !impl::isKeyword(k) ) fail("the keyword is not recognised");
      same(impl::isKeywordConvexHull(k), std::find(WORDS_CONV.begin(), WORDS_CONV.begin() + 8, k) != WORDS_CONV.begin() + 8, "isKeywordConvexHull");
      same(impl::isKeywordReducedConvexHull(k), std::find(WORDS_CONV.begin() + 8, WORDS_CONV.end(), k) != WORDS_CONV.end(), "isKeywordReducedConvexHull");
      same(impl::isKeywordConicalHull(k), std::find(WORDS_CONE.begin(), WORDS_CONE.begin() + 8, k) != WORDS_CONE.begin() + 8, "isKeywordConicalHull");
      same(impl::isKeywordReducedConicalHull(k), std::find(WORDS_CONE.begin() + 8, WORDS_CONE.end(), k) != WORDS_CONE.end(), "isKeywordReducedConicalHull");
   }
   /// through the command line: rays first, then vertices
   void whole()
   {
      const std::size_t n = rnd(1, 3);
      auto rows = [&](std::string& t, M& m, bool ray, long lo)
      {
         for ( long c = rnd(lo, 3); c > 0; --c )
         {
            std::string o = blanks(false) + identifier();
            for ( std::size_t i = 0; i < n; ++i ) { o += std::to_string(rnd(-9, 9)) + (coin(3) ? blanks(false) + "/" + blanks(false) + std::to_string(rnd(1, 6)) : ""); if ( i + 1 < n ) o += blanks(true); }
            V v; Reader r(o, 0); r.full(v, ray); m.push_back(v); t += o + eol();
         }
      };
      std::string t; M conv, cone; const bool raw = false;
      if ( !raw ) t += keyword(KW_CONV) + "\n";
      rows(t, conv, false, 1);
      if ( !raw && coin() ) { if ( coin(3) ) t += "END\n"; t += keyword(KW_CONE) + "\n"; rows(t, cone, true, 1); }
      if ( !raw && coin(3) ) t += "END\n";
      begin("file f: " + shown(t));
      write_file("f", t);
      cone.insert(cone.end(), conv.begin(), conv.end());
      Args a({"panda", "f"});
      M got; try { got = big(std::get<0>(panda::input::vertices<int>(a.argc(), a.argv()))); } catch ( const std::exception& e ) { fail(std::string("the file is refused: ") + e.what()); }
      std::sort(got.begin(), got.end()); std::sort(cone.begin(), cone.end());
      if ( got != cone ) fail("the rows read are " + str(got) + ", expected " + str(cone));
   }
}
void run()
{
   quiet();
   while ( time_left() ) { guard(); const int k = rnd(0, 9); if ( k < 3 ) one(0); else if ( k < 6 ) one(1); else if ( k < 8 ) one(2); else if ( k < 9 ) helpers(); else whole(); }
}
