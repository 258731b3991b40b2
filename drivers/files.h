// input files and command lines for the drivers of the readers
#pragma once
#include "templ.h"
#include <fcntl.h>
#include <memory>
#include "input.h"
namespace drv
{
   using MI = std::vector<std::vector<int>>;
   inline V big(const std::vector<int>& r) { V v; for ( int x : r ) v.push_back(x); return v; }
   inline M big(const MI& m) { M r; for ( const auto& x : m ) r.push_back(big(x)); return r; }
   inline std::vector<int> ints(const V& v) { std::vector<int> r; for ( const auto& x : v ) r.push_back(static_cast<int>(x)); return r; }
   /// writes a file into the working directory (a scratch directory made by check.py)
   inline void write_file(const char* name, const std::string& text)
   {
      const int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if ( fd < 0 || write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size()) ) { std::cout << "cannot write " << name << std::endl; _exit(3); }
      close(fd);
   }
   inline void quiet()
   {
      const int fd = open("/dev/null", O_WRONLY);
      static std::ostringstream sink;
      (void)fd;
      std::cerr.rdbuf(sink.rdbuf()), std::cerr.setstate(std::ios::failbit);
   }
   /// the arguments as strings of exactly their size on the heap
   struct Args
   {
      std::vector<std::unique_ptr<char[]>> s; std::vector<char*> p;
      explicit Args(const std::vector<std::string>& a)
      {
         for ( const auto& x : a ) { s.emplace_back(new char[x.size() + 1]); std::memcpy(s.back().get(), x.c_str(), x.size() + 1); p.push_back(s.back().get()); }
      }
      int argc() const { return static_cast<int>(p.size()); }
      char** argv() { return p.data(); }
   };
   inline std::string shown(const std::string& text)
   {
      std::string o; for ( char c : text ) if ( c == '\n' ) o += " | "; else if ( c == '\r' ) o += "\\r"; else if ( c == '\t' ) o += "\\t"; else o += c; return o;
   }
   template <typename F> bool raises(F f) { try { f(); } catch ( const std::exception& ) { return true; } return false; }
   inline std::string blanks(bool some) { static const char* w[] = {" ", "  ", "\t", " \t "}; if ( !some && coin() ) return ""; return w[coin() ? 0 : rnd(0, 3)]; }
   /// the documented keywords of a section
   inline std::string keyword(const std::vector<std::string>& all) { return all[rnd(0, all.size() - 1)]; }
   using L = std::vector<std::string>;
   static const L KW_NAMES{"Names", "INDEX", "INDICES", "NAMES"}, KW_MAPS{"Maps", "MAPS"}, KW_CONV{"Vertices", "CONV_SECTION"}, KW_CONE{"Rays", "CONE_SECTION"}, KW_EQ{"Equations", "EQUATIONS"}, KW_INEQ{"Inequalities", "INEQUALITY_SECTION"},
      KW_RCONV{"Reduced Vertices", "REDUCED_CONV_SECTION"}, KW_RCONE{"Reduced Rays", "REDUCED_CONE_SECTION"}, KW_RINEQ{"Reduced Inequalities", "REDUCED_INEQUALITY_SECTION"};
   inline std::vector<std::string> some_names(std::size_t n)
   {
      static const std::vector<L> all{{"x", "y", "z", "u", "v", "w"}, {"x1", "x2", "x3", "x4", "x5", "x6"}, {"x", "xx", "xxx", "y", "yx", "yy"}, {"a_1", "a_2", "b_1", "b", "a", "c"}};
      L l = all[rnd(0, 3)];
      for ( std::size_t i = l.size(); i > 1; --i ) std::swap(l[i - 1], l[rnd(0, i - 1)]);
      l.resize(n);
      return l;
   }
   /// a constraint a x + b (rel) 0 in the notation with names
   inline std::string named(const std::vector<int>& r, const L& names, const std::string& rel, bool flip = false)
   {
      std::string o; bool first = true;
      const std::size_t n = names.size();
      std::vector<std::size_t> p(n); for ( std::size_t i = 0; i < n; ++i ) p[i] = i;
      for ( std::size_t i = n; i > 1; --i ) std::swap(p[i - 1], p[rnd(0, i - 1)]);
      for ( std::size_t i : p )
      {
         const int c = flip ? -r[i] : r[i];
         if ( c == 0 && !coin(12) ) continue;
         std::string t = std::to_string(c < 0 ? -c : c); if ( (c == 1 || c == -1) && coin() ) t = "";
         t += names[i];
         if ( c < 0 ) o += (first ? std::string("-") : std::string(coin() ? " - " : " -")) + t;
         else o += (first ? std::string(coin(6) ? "+" : "") : std::string(coin() ? " + " : coin() ? " +" : " ")) + t;
         first = false;
      }
      const int b = flip ? r[n] : -r[n];
      if ( first ) o = "0" + names[0];
      return o + blanks(true) + rel + blanks(true) + (b >= 0 && coin(8) ? "+" : "") + std::to_string(b);
   }
   inline std::string identifier() { static const char* a[] = {"(1)", "( 12)", "(a)", "(id 3 )", "()"}; return coin(6) ? a[rnd(0, 4)] + blanks(false) : std::string(); }
   inline std::string line_end() { return coin(10) ? " \n" : coin(10) ? "\r\n" : coin(12) ? "\n\n" : "\n"; }
}
