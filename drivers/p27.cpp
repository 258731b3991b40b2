// the options and the keywords of the input select the computation they name
#include "files.h"
#include "concurrency.h"
#include "input_detection.h"
#include "input_method.h"
#include "input_validity.h"
#include "integer_type_detection.h"
#include "integer_type_selection.h"
#include <algorithm>
#include <fstream>
#define main panda_main
#include "main.cpp"
#undef main
using namespace drv;
namespace
{
   bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
   enum class Kind { Nothing, Value, Malformed };
   struct Option { Kind kind; std::string value; };
   /// the first option of a kind
   Option first(const L& a, const std::string& brief, const L& full)
   {
      for ( std::size_t i = 1; i < a.size(); ++i )
      {
         if ( a[i] == brief ) return i + 1 < a.size() ? Option{Kind::Value, a[i + 1]} : Option{Kind::Malformed, ""};
         if ( starts(a[i], brief + "=") ) return {Kind::Value, a[i].substr(brief.size() + 1)};
         for ( const auto& f : full ) if ( starts(a[i], f) ) return {Kind::Value, a[i].substr(f.size())};
         if ( starts(a[i], brief) || starts(a[i], "-" + brief) ) return {Kind::Malformed, ""};
      }
      return {Kind::Nothing, ""};
   }
   int type_of(const L& a)
   {
      const Option o = first(a, "-i", {"--integer-type="});
      if ( o.kind == Kind::Nothing ) return 5;
      static const L all{"16", "32", "64", "safe", "inf"};
      const auto p = std::find(all.begin(), all.end(), o.value);
      return o.kind == Kind::Malformed || p == all.end() ? -1 : static_cast<int>(p - all.begin());
   }
   int method_of(const L& a)
   {
      const Option o = first(a, "-m", {"--method="});
      if ( o.kind == Kind::Nothing ) return 0;
      if ( o.kind == Kind::Malformed ) return -1;
      if ( o.value == "ad" || o.value == "adjacency-decomposition" || o.value == "adjacency_decomposition" ) return 0;
      if ( o.value == "dd" || o.value == "double-description" || o.value == "double_description" ) return 1;
      return -1;
   }
   /// number of threads: 0 any, -1 refused
   long threads_of(const L& a)
   {
      const Option o = first(a, "-t", {"--threads="});
      if ( o.kind == Kind::Nothing ) return 0;
      if ( o.kind == Kind::Malformed ) return -1;
      static const std::string sp = " \t\n\v\f\r";
      std::size_t b = o.value.find_first_not_of(sp), e = o.value.find_last_not_of(sp);
      if ( b == std::string::npos ) return -1;
      std::string s = o.value.substr(b, e - b + 1);
      if ( s[0] == '+' ) s = s.substr(1);
      if ( s.empty() || s.find_first_not_of("0123456789") != std::string::npos || s.find_first_not_of('0') == std::string::npos ) return -1;
      s = s.substr(s.find_first_not_of('0'));
      if ( s.size() > 10 || std::stoll(s) > 2147483647LL ) return -1;
      return std::stol(s);
   }
   bool takes(const std::string& x) { return starts(x, "-") && !starts(x, "--") && x != "-c" && x != "-f" && x.find('=') == std::string::npos; }
   bool file_of(const L& a, std::string& name)
   {
      name.clear();
      for ( std::size_t i = 1; i < a.size(); ++i )
      {
         if ( takes(a[i]) ) ++i; else if ( !starts(a[i], "-") ) { if ( !name.empty() ) return false; name = a[i]; }
      }
      return true;
   }
   const L KW_C{"CONE_SECTION", "CONICAL_HULL", "CONICAL_HULL_SECTION", "Rays", "CONVEX_HULL", "CONVEX_HULL_SECTION", "CONV_SECTION", "Vertices", "REDUCED_CONE_SECTION", "REDUCED_CONICAL_HULL", "REDUCED_CONICAL_HULL_SECTION", "Reduced Rays", "REDUCED_CONVEX_HULL",
      "REDUCED_CONVEX_HULL_SECTION", "REDUCED_CONV_SECTION", "Reduced Vertices"};
   const L KW_I{"INEQUALITIES", "INEQUALITY_SECTION", "INEQUALITIES_SECTION", "Inequalities", "REDUCED_INEQUALITIES", "REDUCED_INEQUALITY_SECTION", "REDUCED_INEQUALITIES_SECTION", "Reduced Inequalities"};
   struct File { std::string name, text; bool hull, ieqs; };
   std::vector<File> files;
   /// 0 facets, 1 vertices, 2 help of an option, 3 help, 4 version, 5 none, -1 refused
   int mode_of(const L& a)
   {
      if ( a.size() == 1 ) return 3;
      for ( std::size_t i = 1; i < a.size(); ++i )
      {
         const auto& x = a[i];
         if ( (x == "-h" && i + 1 < a.size()) || starts(x, "-h=") || starts(x, "--help=") || starts(x, "--help-command=") ) return 2;
         if ( x == "?" || x == "-h" || x == "--h" || x == "-help" || x == "--help" ) return 3;
         if ( x == "-v" || x == "--v" || x == "-version" || x == "--version" ) return 4;
      }
      std::string n;
      if ( !file_of(a, n) ) return -1;
      for ( const auto& f : files ) if ( f.name == n ) return f.hull && f.ieqs ? 5 : f.ieqs ? 1 : 0;
      return 0;
   }
   void new_file(const std::string& name)
   {
      File f{name, "", false, false};
      for ( long n = rnd(0, 12); n > 0; --n )
      {
         static const L other{"1 2 3", "x + y <= 1", "Names", "x y", "Maps", "END", "DIM = 3", "Equations", "0 0 1", "Verticess", "vertices", "Reduced", "", "Rays Vertices", "Vertices 1", "CONV", "INEQUALITY", "INEQUALITIES 2", "Reduced  Vertices", ":"};
         std::string line;
         if ( coin(4) ) { line = keyword(KW_C); f.hull = true; if ( coin() ) line += ":"; }
         else if ( coin(4) ) { line = keyword(KW_I); f.ieqs = true; if ( coin() ) line += ":"; }
         else line = keyword(other);
         f.text += blanks(false) + line + blanks(false) + (n == 1 && coin() ? "" : coin(8) ? "\r\n" : "\n");
      }
      if ( coin(10) ) { f.text.clear(); f.hull = f.ieqs = false; }
      if ( coin(25) && !f.text.empty() && f.text.back() == '\n' ) { f.text = std::string(rnd(1, 300), '\n') + f.text; }
      write_file(name.c_str(), f.text);
      files.push_back(f);
   }
   template <typename T> struct Code;
   template <> struct Code<int16_t> { static int call(int, char**) { return 0; } };
   template <> struct Code<int32_t> { static int call(int, char**) { return 1; } };
   template <> struct Code<int64_t> { static int call(int, char**) { return 2; } };
   template <> struct Code<panda::SafeInteger> { static int call(int, char**) { return 3; } };
   template <> struct Code<panda::BigInteger> { static int call(int, char**) { return 4; } };
   /// near misses of a word: a character more, less or changed
   std::string near_miss(std::string w)
   {
      static const std::string ch = "16x-_= aisfdmt0h\t";
      const char c = ch[rnd(0, ch.size() - 1)]; const long p = rnd(0, w.size());
      switch ( rnd(0, 5) )
      {
         case 0: case 1: return w + c;
         case 2: return w.insert(p, 1, c);
         case 3: return w.empty() ? w : w.substr(0, w.size() - 1);
         case 4: if ( p < static_cast<long>(w.size()) ) w.erase(p, 1); return w;
         default: if ( p < static_cast<long>(w.size()) ) w[p] = c; return w;
      }
   }
   std::string some_argument()
   {
      static const L opts{"-i", "-m", "-t", "-s", "-k", "-c", "-f", "--check", "--filter", "--integer-type=", "--method=", "--threads=", "--sorting=", "--known-data=", "--known-facets=", "--known-vertices=", "-i=", "-m=", "-t=", "-s=", "-k=", "-ii", "--i", "--integer", "-tt", "--t",
         "--m", "-mad", "-i16", "--k", "-known", "-", "--", "-x", "--x", "-x=", "-c=", "-cc", "-filter", "=", "x=1"};
      static const L vals{"16", "32", "64", "safe", "inf", "8", "016", "16 ", "", "Safe", "dd", "ad", "double-description", "double_description", "adjacency-decomposition", "adjacency_decomposition", "d", "add", "double description", "1", "4", "0", "-1", "+3", " 2", "7 ", "3x", "x3",
         "2147483647", "2147483648", "4294967297", "1.5", "000012", "lex", "lex_desc", "nz", "rev", "fa", "fb", "fc", "fd", "nofile", "\t5\n", "5 5", "+", "- 3"};
      static const L help{"-h", "-h=i", "--help=m", "--help-command=t", "?", "--h", "-help", "--help", "-v", "--v", "-version", "--version", "-hh", "--helpx", "-vv", "??"};
      switch ( rnd(0, 9) )
      {
         case 0: case 1: case 2: { std::string o = keyword(opts); if ( o.back() == '=' ) o += keyword(vals); return o; }
         case 3: return keyword({"fa", "fb", "fc", "fd"});
         case 4: return coin(3) ? keyword(help) : keyword(vals);
         case 5: { static const L p{"--integer-type=", "-i=", "--method=", "-m=", "--threads=", "-t=", "--known-data=", "-k="}; return keyword(p) + keyword(vals); }
         case 6: return keyword({"-i", "-m", "-t", "-k", "-s"});
         default: return keyword(vals);
      }
   }
   std::string argument() { const std::string w = some_argument(); return coin(8) ? near_miss(w) : w; }
   std::string value(const L& all) { const std::string w = keyword(all); return coin(10) ? near_miss(w) : w; }
   L arguments()
   {
      static const L types{"16", "32", "64", "safe", "inf"}, methods{"dd", "ad", "double-description", "double_description", "adjacency-decomposition", "adjacency_decomposition"};
      L a{"panda"};
      if ( coin() )
      {
         for ( long n = rnd(0, 5); n > 0; --n ) a.push_back(argument());
         return a;
      }
      // mostly well-formed
      std::vector<L> parts;
      auto add = [&](const std::string& b, const std::string& f, const std::string& v) { switch ( rnd(0, 2) ) { case 0: parts.push_back({b, v}); break; case 1: parts.push_back({b + "=" + v}); break; default: parts.push_back({f + v}); } };
      if ( coin() ) add("-i", "--integer-type=", coin(8) ? argument() : value(types));
      if ( coin() ) add("-m", "--method=", coin(8) ? argument() : value(methods));
      if ( coin() ) add("-t", "--threads=", coin(8) ? argument() : value({std::to_string(rnd(1, 40))}));
      if ( coin(4) ) add("-k", "--known-data=", keyword({"fa", "fb"}));
      if ( coin(4) ) add("-s", "--sorting=", keyword({"lex", "rev", "nz_desc"}));
      if ( coin(4) ) parts.push_back({keyword({"-c", "-f", "--check", "--filter"})});
      if ( coin(8) ) add("-i", "--integer-type=", keyword(types));
      if ( coin(8) ) add("-m", "--method=", keyword(methods));
      if ( !coin(5) ) parts.push_back({keyword({"fa", "fb", "fc", "fd"})});
      if ( coin(12) ) parts.push_back({argument()});
      for ( std::size_t i = parts.size(); i > 1; --i ) std::swap(parts[i - 1], parts[rnd(0, i - 1)]);
      for ( const auto& p : parts ) a.insert(a.end(), p.begin(), p.end());
      return a;
   }
   std::string shown_args(const L& a) { std::string o; for ( const auto& x : a ) o += " [" + shown(x) + "]"; return o; }
   void options()
   {
      const L a = arguments();
      std::string text = "arguments:" + shown_args(a);
      for ( const auto& f : files ) text += "  file " + f.name + " = " + shown(f.text);
      drv::begin(text);
      Args args(a);
      auto get = [&](std::function<long()> f) { try { return f(); } catch ( const std::exception& ) { return -1L; } };
      same(get([&] { return static_cast<long>(panda::integerType(args.argc(), args.argv())); }), static_cast<long>(type_of(a)), "the integer type (-1: refused)");
      same(get([&] { return static_cast<long>(panda::IntegerTypeSelector<Code>::select(args.argc(), args.argv())); }), static_cast<long>(type_of(a) == 5 ? 1 : type_of(a)), "the integer type computed with (-1: refused)");
      same(get([&] { return static_cast<long>(panda::input::method(args.argc(), args.argv())); }), static_cast<long>(method_of(a)), "the method (-1: refused)");
      const long t = get([&] { return static_cast<long>(panda::concurrency::numberOfThreads(args.argc(), args.argv())); });
      if ( threads_of(a) == 0 ) expect(t > 0, "the number of threads is positive"); else same(t, threads_of(a), "the number of threads (-1: refused)");
      std::string name; const bool one = file_of(a, name);
      bool refused = false; std::string got;
      try { got = panda::getFilename(args.argc(), args.argv()); } catch ( const std::exception& ) { refused = true; }
      expect(refused == !one, one ? "the file name is refused" : "several file names are accepted");
      if ( one ) same(got, name, "the file name");
      same(get([&] { return static_cast<long>(panda::detectOperationMode(args.argc(), args.argv())); }), static_cast<long>(mode_of(a)), "the mode (0 facets, 1 vertices, 2-4 help and version, 5 none, -1 refused)");
      same(panda::input::checkValidity(args.argc(), args.argv()), std::count_if(a.begin() + 1, a.end(), [](const std::string& x) { return x == "-c" || x == "--check"; }) > 0, "the check is asked for");
      same(panda::input::filterInvalidInput(args.argc(), args.argv()), std::count_if(a.begin() + 1, a.end(), [](const std::string& x) { return x == "-f" || x == "--filter"; }) > 0, "the filter is asked for");
   }
   /// the file of known facets or vertices
   void known()
   {
      const bool facets = coin();
      write_file("sq", facets ? "Vertices\n0 0\n1 0\n0 1\n1 1\n" : "Inequalities\n-1 0 0\n0 -1 0\n1 0 -1\n0 1 -1\n");
      static const std::vector<std::vector<int>> F{{-1, 0, 0}, {0, -1, 0}, {1, 0, -1}}, W{{0, 0, 1}, {1, 0, 1}, {0, 1, 1}};
      for ( int i = 0; i < 3; ++i )
      {
         std::ostringstream t; const auto& r = facets ? F[i] : W[i];
         t << (facets ? "Inequalities\n" : "Vertices\n") << r[0] << ' ' << r[1]; if ( facets ) t << ' ' << r[2]; t << '\n';
         write_file(("k" + std::to_string(i)).c_str(), t.str());
      }
      L a{"panda", "sq"};
      for ( long n = rnd(0, 3); n > 0; --n )
      {
         const std::string file = coin(10) ? "nofile" : "k" + std::to_string(rnd(0, 2));
         switch ( rnd(0, 6) )
         {
            case 0: a.push_back("-k"); if ( n > 1 || !coin(4) ) a.push_back(file); break;
            case 1: a.push_back("-k=" + file); break;
            case 2: case 3: a.push_back("--known-data=" + file); break;
            case 4: a.push_back((facets == !coin(4) ? "--known-facets=" : "--known-vertices=") + file); break;
            case 5: a.push_back(keyword({"-i=64", "-m=dd", "--method=dd", "-t=3", "--threads=2"})); break;
            default: if ( coin(3) ) a.push_back(keyword({"-known", "--known", "--k=" + file, "--known-facet=" + file, "-k" + file})); break;
         }
      }
      if ( coin(3) ) { a.erase(a.begin() + 1); a.insert(coin() ? a.end() : a.begin() + 1, "sq"); }
      begin("known data:" + shown_args(a) + (facets ? "  file ki = the i-th of -x<=0, -y<=0, x<=1" : "  file ki = the i-th of (0,0), (1,0), (0,1)"));
      Args args(a);
      std::string name; const bool one = file_of(a, name) && name == "sq";
      const Option o = first(a, "-k", {"--known-data=", facets ? "--known-facets=" : "--known-vertices="});
      const bool fine = one && o.kind != Kind::Malformed && o.value != "nofile" && o.value != "sq";
      bool refused = false; std::vector<std::vector<int>> got, want;
      if ( o.kind == Kind::Value && o.value.size() == 2 && o.value[0] == 'k' ) want.push_back((facets ? F : W)[o.value[1] - '0']);
      else if ( o.kind == Kind::Value && o.value != "nofile" && !o.value.empty() ) return;
      try { got = facets ? std::get<3>(panda::input::vertices<int>(args.argc(), args.argv())) : std::get<3>(panda::input::inequalities<int>(args.argc(), args.argv())); } catch ( const std::exception& ) { refused = true; }
      same(refused, !fine, fine ? "well-formed options are refused" : "malformed options are accepted");
      if ( fine && got != want ) fail("the known data: got " + str(big(got)) + ", expected " + str(big(want)));
   }
   /// rows of text up to positive multiples
   std::set<V> rows(const std::string& text)
   {
      std::set<V> r; std::istringstream s(text); std::string line;
      while ( std::getline(s, line) )
      {
         std::istringstream l(line); V v; std::string w; bool ok = true;
         std::vector<std::pair<Z, Z>> f;
         while ( l >> w )
         {
            const auto p = w.find('/');
            try { f.emplace_back(Z(w.substr(0, p)), p == std::string::npos ? Z(1) : Z(w.substr(p + 1))); } catch ( const std::exception& ) { ok = false; }
         }
         if ( !ok || f.empty() ) continue;
         for ( const auto& x : f ) { v.push_back(x.first); v.push_back(x.second); }
         r.insert(v);
      }
      return r;
   }
   /// the whole program: a box, from its vertices or from its inequalities
   void program()
   {
      static const L types{"", "16", "32", "64", "safe", "inf"}, methods{"", "dd", "ad", "double-description", "adjacency_decomposition"};
      const bool facets = coin(), wide = coin(3);
      const std::string ty = wide ? keyword({"16", "64", "safe", "inf"}) : keyword(types), me = keyword(methods);     // no value overflows
      const long w = wide ? rnd(32768, 40000) : rnd(1, 6), h = rnd(1, 6);
      std::string text;
      if ( facets ) { text = keyword(KW_CONV) + "\n0 0\n" + std::to_string(w) + " 0\n0 " + std::to_string(h) + "\n" + std::to_string(w) + " " + std::to_string(h) + "\n"; }
      else { text = keyword(KW_INEQ) + "\n-1 0 0\n0 -1 0\n1 0 " + std::to_string(-w) + "\n0 1 " + std::to_string(-h) + "\n"; }
      write_file("box", text);
      std::vector<L> parts{{"box"}};
      auto add = [&](const std::string& b, const std::string& f, const std::string& v) { if ( v.empty() ) return; switch ( rnd(0, 2) ) { case 0: parts.push_back({b, v}); break; case 1: parts.push_back({b + "=" + v}); break; default: parts.push_back({f + v}); } };
      add("-i", "--integer-type=", ty); add("-m", "--method=", me); add("-t", "--threads=", std::to_string(rnd(1, 4)));
      for ( std::size_t i = parts.size(); i > 1; --i ) std::swap(parts[i - 1], parts[rnd(0, i - 1)]);
      L a{"panda"}; for ( const auto& p : parts ) a.insert(a.end(), p.begin(), p.end());
      begin("program:" + shown_args(a) + "  file box = " + shown(text));
      Args args(a);
      std::ostringstream out, err;
      auto* o = std::cout.rdbuf(out.rdbuf()); auto* e = std::cerr.rdbuf(err.rdbuf()); const auto st = std::cerr.rdstate(); std::cerr.clear();
      int rc = -1; std::string what;
      try { rc = panda_main(args.argc(), args.argv()); } catch ( const std::exception& x ) { what = x.what(); }
      std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cerr.clear(st);
      if ( !what.empty() ) fail("the program ends with an exception: " + what);
      const bool dd = me == "dd" || me == "double-description";
      const std::string head = std::string(facets ? "facet" : "vertex") + " enumeration with " + (dd ? "double description" : "adjacency decomposition");
      if ( err.str().find(head) == std::string::npos ) fail("the program does not announce \"" + head + "\"");
      if ( wide && ty == "16" ) { expect(rc == 1, "entries that do not fit 16 bits are refused: the program returns 1"); return; }
      same(rc, 0, "the value returned");
      std::set<V> want;
      auto row = [&](std::initializer_list<long> v) { V r; for ( long x : v ) { r.push_back(x); r.push_back(1); } want.insert(r); };
      if ( facets ) { row({-1, 0, 0}); row({0, -1, 0}); row({1, 0, -w}); row({0, 1, -h}); } else if ( dd ) { row({0, 0}); row({w, 0}); row({0, h}); row({w, h}); }
      else { row({0, 0, 1}); row({w, 0, 1}); row({0, h, 1}); row({w, h, 1}); }
      const auto got = rows(out.str());
      if ( got != want ) fail("the result of the program: " + shown(out.str()));
   }
}
void run()
{
   quiet();
   for ( const char* n : {"fa", "fb", "fc", "fd"} ) new_file(n);
   while ( time_left() )
   {
      guard();
      if ( coin(150) ) { files.clear(); for ( const char* n : {"fa", "fb", "fc", "fd"} ) new_file(n); }
      if ( coin(250) ) program(); else if ( coin(10) ) known(); else options();
   }
}
