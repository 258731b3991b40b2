// constraints read from text, against a reader of its own
#include "files.h"
#include "input_common.h"
#include "input_constraint.h"
#include "input_keywords.h"
#include <algorithm>
#include <sstream>
using namespace drv;
namespace
{
   namespace impl = panda::input::implementation;
   const L WORDS_EQ{"EQUATIONS", "EQUATIONS:", "EQUATION_SECTION", "EQUATION_SECTION:", "EQUATIONS_SECTION", "EQUATIONS_SECTION:", "Equations", "Equations:"},
      WORDS_INEQ{"INEQUALITIES", "INEQUALITIES:", "INEQUALITY_SECTION", "INEQUALITY_SECTION:", "INEQUALITIES_SECTION", "INEQUALITIES_SECTION:", "Inequalities", "Inequalities:",
         "REDUCED_INEQUALITIES", "REDUCED_INEQUALITIES:", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITY_SECTION:", "REDUCED_INEQUALITIES_SECTION", "REDUCED_INEQUALITIES_SECTION:", "Reduced Inequalities", "Reduced Inequalities:"},
      WORDS_OTHER{"END", "End", "Names", "Names:", "INDEX", "INDICES:", "Maps", "MAPS:", "MAP_SECTION", "CONV_SECTION", "CONE_SECTION:", "Vertices", "Rays", "REDUCED_CONE_SECTION", "Reduced Vertices", "Reduced Rays:", "DIM=3", "Dim = 2", "DIMENSION=1", "Dimension", "Reduced"};
   bool blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
   bool has(const L& l, const std::string& t) { return std::find(l.begin(), l.end(), t) != l.end(); }
   bool is_keyword(const std::string& t)
   {
      if ( has(WORDS_EQ, t) || has(WORDS_INEQ, t) || has(WORDS_OTHER, t) ) return true;
      std::string d = t.substr(0, t.find('=')); while ( !d.empty() && blank(d.back()) ) d.pop_back();
      return d == "DIM" || d == "Dim" || d == "DIMENSION" || d == "Dimension";
   }
   std::string trimmed(std::string t) { while ( !t.empty() && blank(t.back()) ) t.pop_back(); std::size_t i = 0; while ( i < t.size() && blank(t[i]) ) ++i; return t.substr(i); }
   const Z LOW = -(Z(1) << 31), HIGH = (Z(1) << 31) - 1;
   /// an integer in int's range, the whole of a text with possibly a sign
   bool number(const std::string& t, Z& v)
   {
      std::size_t i = !t.empty() && (t[0] == '+' || t[0] == '-') ? 1 : 0;
      if ( i == t.size() ) return false;
      v = 0; for ( ; i < t.size(); ++i ) { if ( t[i] < '0' || t[i] > '9' ) return false; if ( v < (Z(1) << 40) ) v = v * 10 + (t[i] - '0'); }
      if ( t[0] == '-' ) v = -v;
      return LOW <= v && v <= HIGH;
   }
   enum Rel { GE, EQ, LE, NONE };
   /// the meaning of a line
   struct Line
   {
      std::string t; std::size_t p = 0; bool eq; V row; bool bad = false, overflow = false;
      Line(const std::string& text, bool equation) : t(text), eq(equation) {}
      void blanks() { while ( p < t.size() && blank(t[p]) ) ++p; }
      bool end() const { return p >= t.size(); }
      bool next_is(char c, std::size_t k = 0) const { return p + k < t.size() && t[p + k] == c; }
      bool identifier()
      {
         blanks();
         if ( !next_is('(') ) return true;
         const auto e = std::min(t.find(')', p), t.find('\r', t.find_first_not_of(" \t\r", p + 1) == std::string::npos ? t.size() : t.find_first_not_of(" \t\r", p + 1)));
         if ( e == std::string::npos || t[e] != ')' ) return false;
         p = e + 1; blanks();
         return true;
      }
      /// 0: none here, 1: one read, -1: malformed
      int relation(Rel& r)
      {
         if ( end() || (t[p] != '<' && t[p] != '>' && t[p] != '=') ) return 0;
         if ( next_is('=', 1) ) { r = t[p] == '<' ? LE : t[p] == '>' ? GE : EQ; p += 2; return 1; }
         if ( t[p] == '=' && p + 1 < t.size() && blank(t[p + 1]) ) { r = EQ; ++p; return 1; }
         return -1;
      }
      bool fits(Rel r) const { return (r == EQ) == eq; }
      std::string word() { blanks(); const auto a = p; while ( p < t.size() && !blank(t[p]) ) ++p; return t.substr(a, p - a); }
      void finish(Rel r) { if ( r == GE ) for ( auto& x : row ) x = -x; for ( auto& x : row ) if ( x < LOW || x > HIGH ) overflow = true; }
      void vector()
      {
         bad = true;
         if ( !identifier() ) return;
         Rel r = NONE; bool rhs = false; row.clear();
         for ( blanks(); !end(); blanks() )
         {
            Rel q; const int k = relation(q);
            if ( k < 0 ) return;
            if ( k > 0 ) { if ( r != NONE || !fits(q) ) return; r = q; continue; }
            const auto a = p; if ( next_is('+') || next_is('-') ) ++p;
            while ( p < t.size() && t[p] >= '0' && t[p] <= '9' ) ++p;
            Z v; if ( !number(t.substr(a, p - a), v) || rhs ) return;
            if ( r != NONE ) { v = -v; rhs = true; if ( v > HIGH ) overflow = true; }
            row.push_back(v);
         }
         if ( r != NONE && !rhs ) return;
         bad = false; finish(r);
      }
      bool term(const std::string& w, const L& names, std::size_t& i, Z& f)
      {
         std::size_t e = 0; while ( e < w.size() && ((w[e] >= '0' && w[e] <= '9') || w[e] == '+' || w[e] == '-') ) ++e;
         if ( e == w.size() ) { i = names.size(); return number(w, f); }
         i = std::find(names.begin(), names.end(), w.substr(e)) - names.begin();
         if ( i == names.size() ) return false;
         const std::string s = w.substr(0, e);
         if ( s == "" || s == "+" ) { f = 1; return true; }
         if ( s == "-" ) { f = -1; return true; }
         return number(s, f);
      }
      void terms(const L& names)
      {
         bad = true;
         if ( !identifier() ) return;
         blanks();
         row.clear();
         if ( end() ) { bad = false; return; }
         Rel r = NONE; bool rhs = false; row.assign(names.size() + 1, 0);
         for ( ; !end(); blanks() )
         {
            Rel q; const int k = (t[p] == '<' || t[p] == '>' || t[p] == '=') && (next_is('=', 1) || (p + 1 < t.size() && blank(t[p + 1]))) ? relation(q) : 0;
            if ( k < 0 ) return;
            if ( k > 0 ) { if ( r != NONE || !fits(q) ) return; r = q; continue; }
            std::string w = word(); std::size_t i; Z f;
            if ( w == "+" || w == "-" )
            {
               const bool minus = w == "-"; w = word();
               if ( w.empty() || !term(w, names, i, f) || f < 0 ) return;
               if ( minus ) f = -f;
            }
            else if ( !term(w, names, i, f) ) return;
            if ( rhs ) return;
            if ( i == names.size() ) { if ( r == NONE ) return; rhs = true; f = -f; if ( f > HIGH ) overflow = true; }
            else if ( r != NONE || row[i] != 0 ) return;
            row[i] = f;
         }
         if ( !rhs ) return;
         bad = false; finish(r);
      }
   };
   /// does a name occur in the text?  -1: it depends on how the words are separated
   int occurs(const L& names, const std::string& t)
   {
      bool some = false;
      for ( const auto& n : names ) if ( t.find(n) != std::string::npos ) some = true;
      if ( !some ) return 0;
      auto begins = [&](char c) { for ( const auto& n : names ) if ( n[0] == c ) return true; return false; };
      auto inside = [&](char c) { for ( const auto& n : names ) if ( n.find(c) != std::string::npos ) return true; return false; };
      for ( const auto& n : names ) for ( auto a = t.find(n); a != std::string::npos && a < 1900; a = t.find(n, a + 1) )
      {
         std::size_t b = a; while ( b > 0 && !begins(t[b - 1]) ) --b;      // t[b .. a) begins no name
         for ( std::size_t j = b; j <= a; ++j ) if ( j == 0 || !inside(t[j - 1]) ) return 1;
      }
      return -1;
   }
   std::string num()
   {
      if ( coin(40) ) return std::to_string(coin() ? 2147483647L - rnd(0, 3) : -2147483647L + rnd(0, 3));
      if ( coin(60) ) return std::to_string(coin() ? 2147483648L + rnd(0, 3) : -2147483649L - rnd(0, 3));
      return std::string(coin(9) ? "+" : coin(3) ? "-" : "") + (coin(20) ? "0" : "") + std::to_string(rnd(0, coin(4) ? 1000 : 9));
   }
   std::string rel(bool eq) { return coin(40) ? (coin() ? "<" : ">") : coin(30) ? (eq ? "<=" : "=") : eq ? (coin(6) ? "==" : "=") : coin() ? "<=" : ">="; }
   std::string plain(bool eq)
   {
      std::string o = blanks(false) + identifier();
      const bool r = coin();
      for ( long i = rnd(1, 4); i > 0; --i ) { if ( i == 1 && r ) { const std::string q = rel(eq); o += q + blanks(q == "=" || coin()); } o += num() + (i > 1 ? blanks(true) : blanks(false)); }
      return o;
   }
   std::string with_names(const L& names, bool eq)
   {
      std::string o = blanks(false) + identifier() + (coin() ? "" : blanks(false));
      L use; for ( const auto& n : names ) if ( coin() ) use.push_back(n);
      for ( std::size_t i = use.size(); i > 1; --i ) std::swap(use[i - 1], use[rnd(0, i - 1)]);
      if ( coin(12) && !use.empty() ) use.push_back(use[rnd(0, use.size() - 1)]);
      bool first = true;
      for ( const auto& n : use )
      {
         const int k = rnd(0, 5);
         o += k == 0 ? "-" : k == 1 ? "+" : k == 2 ? "- " : k == 3 ? "+ " : k == 4 && !first ? "" : coin(8) ? "+" : "";
         if ( coin() ) o += std::to_string(rnd(0, coin(5) ? 2000 : 9));
         if ( coin(60) ) o += num();
         o += n + blanks(true); first = false;
      }
      if ( coin(25) ) o += num() + " ";
      o += rel(eq) + blanks(!o.empty());
      if ( coin(8) ) o += coin() ? "- " : "+ ";
      if ( coin(25) && !use.empty() ) o += use[0] + " ";
      if ( !coin(30) ) o += num();
      return o + blanks(false);
   }
   std::string spoiled(std::string r, const L& names)
   {
      static const char* bad[] = {"w9", ".", "1.5", "/", "1/2", "<=", ">=", "=", "==", "-", "+", "--1", "1-", "2147483648", "-2147483649", "99999999999999999999", "1e2", "(", "(1", "1)", "qq", "1+2", "+-", "<", "0x1", "1,2", "*", ";", "=<", "\xe9", "<= <=", "3 4"};
      std::string b = bad[rnd(0, 31)];
      if ( coin(3) && !names.empty() ) b += names[0];
      const auto k = rnd(0, r.size());
      return r.substr(0, k) + (coin() ? " " : "") + b + (coin() ? " " : "") + r.substr(k);
   }
   std::string eol() { return coin(8) ? "\r\n" : coin(8) ? "\n\n" : coin(10) ? " \n" : coin(12) ? "\n \t\n" : coin(20) ? "\n\r\n" : "\n"; }
   std::string text(const L& words, const L& names, bool eq, bool plain_)
   {
      std::string o = (coin(8) ? blanks(true) : "") + (coin(20) ? keyword(WORDS_OTHER) : coin(20) ? keyword(eq ? WORDS_INEQ : WORDS_EQ) : keyword(words)) + eol();
      const bool spoil = coin(3);
      for ( long i = rnd(0, 4); i > 0; --i )
      {
         std::string r = coin(25) ? identifier() : plain_ ? plain(eq) : with_names(names, eq);
         if ( spoil && coin() ) r = spoiled(r, names);
         o += r + (i == 1 && coin(3) ? "" : eol());
      }
      if ( coin() ) { if ( o.back() != '\n' && !coin(6) ) o += "\n"; o += blanks(false) + keyword(coin(3) ? WORDS_EQ : WORDS_OTHER); if ( coin(4) ) o += " 7"; if ( !coin(3) ) o += eol() + (coin() ? plain(eq) : "") ; }
      return o;
   }
   std::string soup(const L& words, const L& names)
   {
      static const char c[] = "0123456789--++<>==() \t\n  aE.x";
      std::string o = keyword(words) + "\n";
      for ( long i = rnd(0, 14); i > 0; --i ) { if ( coin(4) && !names.empty() ) o += names[rnd(0, names.size() - 1)]; else o += c[rnd(0, sizeof c - 2)]; }
      return o;
   }
   void one(bool eq)
   {
      const L& words = eq ? WORDS_EQ : WORDS_INEQ;
      L names; if ( !coin(3) ) names = some_names(rnd(1, 4));
      const bool plain_ = names.empty() || coin(4);
      const std::string t = coin(3) ? soup(words, names) : text(words, names, eq, plain_);
      if ( t.find("-2147483648") != std::string::npos || t.find("- 2147483648") != std::string::npos ) return;   // its negation is no int
      std::string shown_names; for ( const auto& n : names ) shown_names += " " + n;
      begin(std::string(eq ? "equations" : "inequalities") + (names.empty() ? ": " : ", names" + shown_names + ": ") + shown(t));
      M want; std::size_t p = 0; bool bad = false, overflow = false, atend = true;
      auto line = [&]() { const auto e = t.find('\n', p); return t.substr(p, (e == std::string::npos ? t.size() : e) - p); };
      auto next = [&]() { const auto e = t.find('\n', p); p = e == std::string::npos ? t.size() : e + 1; };
      if ( t.empty() || !has(words, trimmed(line())) ) bad = true;
      next();
      while ( !bad && !overflow && p < t.size() )
      {
         const std::string l = trimmed(line());
         if ( is_keyword(l) ) { atend = false; if ( l == "END" || l == "End" ) next(); break; }
         if ( l.empty() ) { next(); continue; }
         if ( line().find('\r') < line().find_last_not_of(" \t\r") ) return;   // a carriage return inside a line
         Line r(line(), eq);
         const int k = names.empty() ? 0 : occurs(names, t.substr(p, 2000));
         if ( k < 0 || (k == 0 && !names.empty() && occurs(names, t.substr(p)) != 0) ) return;
         if ( k ) r.terms(names); else r.vector();
         bad = r.bad; overflow = r.overflow;
         if ( bad || overflow ) break;
         if ( !r.row.empty() ) want.push_back(r.row);
         next();
         // further carriage returns and ends of lines
         while ( p < t.size() && (t[p] == '\n' || t[p] == '\r') ) ++p;
      }
      if ( overflow ) return;      // beyond the range of int
      std::istringstream s(t);
      bool refused = false; MI got; std::string why;
      try { got = eq ? impl::constraints<panda::ConstraintType::Equation>(s, names) : impl::constraints<panda::ConstraintType::Inequality>(s, names); } catch ( const std::exception& e ) { refused = true; why = e.what(); }
      if ( refused && !bad ) fail("well-formed constraints are refused: " + why);
      if ( !refused && bad ) fail("malformed input is accepted as " + str(got));
      if ( refused ) return;
      if ( big(got) != want ) fail("the rows read are " + str(got) + ", expected " + str(want));
      if ( atend ) same(static_cast<bool>(s), false, "something is left to be read");
      else { s.clear(); const long at = static_cast<long>(s.tellg()); if ( at != static_cast<long>(p) ) fail("the reader stops at character " + std::to_string(at) + ", expected " + std::to_string(p)); }
   }
   /// names far behind the constraint
   void far()
   {
      L names = some_names(rnd(1, 3));
      std::string t = "Inequalities\n1 2 <= 3\n";
      const long gap = rnd(1980, 2060);
      std::string filler; while ( static_cast<long>(filler.size()) < gap ) filler += "\n";
      t += filler + names[0] + " <= 1\n";
      begin("a name " + std::to_string(9 + gap) + " characters behind a constraint without names");
      const std::size_t at = 13 + 9 + gap;
      if ( at - 13 < 1990 || at - 13 > 2010 )
      {
         std::istringstream s(t); std::vector<std::vector<int>> got; bool refused = false;
         try { got = impl::constraints<panda::ConstraintType::Inequality>(s, names); } catch ( const std::exception& ) { refused = true; }
         if ( at - 13 < 1990 && !refused ) fail("a constraint in the notation without names is accepted although names follow: " + str(got));
         std::vector<int> last(names.size() + 1, 0); last[0] = 1; last.back() = -1;
         if ( at - 13 > 2010 && (refused || got != MI{{1, 2, -3}, last}) ) fail("the constraint is not read without names");
      }
   }
   /// the numbers
   void helpers()
   {
      static const char c[] = "0123456789+-x. ";
      std::string t; for ( long i = rnd(0, 4); i > 0; --i ) t += c[rnd(0, sizeof c - 2)];
      if ( coin(5) ) t = num();
      if ( t.find(' ') != std::string::npos ) return;
      begin("factor \"" + t + "\"");
      Z v; bool ok = true; if ( t == "" || t == "+" ) v = 1; else if ( t == "-" ) v = -1; else ok = number(t, v);
      bool refused = false; int got = 0; try { got = panda::input::toInt(t); } catch ( const std::exception& ) { refused = true; }
      if ( refused == ok ) fail(ok ? "a factor is refused" : "a malformed factor is accepted as " + std::to_string(got));
      if ( ok && Z(got) != v ) fail("the value is " + std::to_string(got));
   }
   /// through the command line
   void whole()
   {
      const std::size_t n = rnd(1, 4);
      const L names = some_names(n);
      const bool with = coin();
      M want; std::string t;
      if ( with ) { t = keyword(KW_NAMES) + "\n"; for ( std::size_t i = 0; i < n; ++i ) t += (i ? " " : "") + names[i]; t += "\n"; }
      auto section = [&](bool eq)
      {
         t += keyword(eq ? WORDS_EQ : KW_INEQ) + "\n";
         for ( long c = rnd(1, 3); c > 0; --c )
         {
            std::vector<int> r; for ( std::size_t i = 0; i <= n; ++i ) r.push_back(rnd(-9, 9));
            const bool flip = !eq && coin();
            if ( with ) t += named(r, names, eq ? "=" : flip ? ">=" : "<=", flip);
            else for ( std::size_t i = 0; i <= n; ++i ) t += (i ? " " : "") + std::to_string(r[i]);
            t += eol();
            V v = big(r); want.push_back(v); if ( eq ) { for ( auto& x : v ) x = -x; want.push_back(v); }
         }
      };
      if ( coin() ) section(true);
      section(false);
      if ( coin(3) ) t += "END\n";
      begin("file f: " + shown(t));
      write_file("f", t);
      V trivial(n + 1, 0); trivial[n] = -1; want.push_back(trivial);
      Args a({"panda", "f"});
      M got; try { got = big(std::get<0>(panda::input::inequalities<int>(a.argc(), a.argv()))); } catch ( const std::exception& e ) { fail(std::string("the file is refused: ") + e.what()); }
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
      if ( got != want ) fail("the rows read are " + str(got) + ", expected " + str(want));
   }
}
void run()
{
   quiet();
   while ( time_left() ) { guard(); const int k = rnd(0, 19); if ( k < 10 ) one(false); else if ( k < 16 ) one(true); else if ( k < 18 ) helpers(); else if ( k < 19 ) whole(); else if ( coin(20) ) far(); }
}
