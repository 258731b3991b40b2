// the shared list of rows under many threads, and parallel adjacency decomposition against a brute force oracle
#include "templ.h"
#include "list.h"
#include "job_manager.h"
#include "method_adjacency_decomposition_implementation.h"
#include "tags.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <thread>
#ifdef __SANITIZE_THREAD__
#include <sanitizer/tsan_interface.h>
extern "C" const char* __tsan_default_options() { return "halt_on_error=0:report_signal_unsafe=0:exitcode=0:second_deadlock_stack=1"; }
extern "C" void __tsan_on_report(void*) { drv::dead("data race (thread sanitizer report on stderr)"); }
#endif
using namespace drv;
namespace
{
   using S = std::set<V>;
   struct Discard : std::streambuf
   {
      int overflow(int c) override { return c == EOF ? 0 : c; }
      std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
   };
   Discard discard;
   std::atomic<long> progress(0);
   void watchdog(int limit)
   {
      long last = -1; int idle = 0;
      for ( ;; )
      {
         std::this_thread::sleep_for(std::chrono::seconds(1));
         const long p = progress;
         idle = p == last ? idle + 1 : 0;
         last = p;
         if ( idle > limit ) dead("the threads do not come to an end (deadlock or endless loop)");
      }
   }
   void pause_a_bit(unsigned& state)
   {
      state = state * 1103515245u + 12345u;
      switch ( (state >> 16) % 6 ) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds((state >> 20) % 40)); break; default: break; }
   }
   /// the rows printed while the function runs
   std::vector<std::string> lines_of(const std::function<void()>& f)
   {
      std::stringbuf out;
      auto* o = std::cout.rdbuf(&out);
      auto* e = std::cerr.rdbuf(&discard);
      f();
      std::cout.rdbuf(o); std::cerr.rdbuf(e);
      std::vector<std::string> r;
      std::istringstream in(out.str());
      for ( std::string l; std::getline(in, l); ) r.push_back(l);
      return r;
   }
   /// "2x0 -x1 <= 3" or "2 -1 -3"
   bool parse(std::string l, std::size_t n, bool named, V& row)
   {
      row.assign(n, Z(0));
      std::istringstream in(l);
      std::string t;
      if ( !named ) { for ( std::size_t i = 0; i < n; ++i ) { if ( !(in >> t) ) return false; try { row[i] = Z(t); } catch ( ... ) { return false; } } return !(in >> t); }
      while ( in >> t && t != "<=" )
      {
         const auto x = t.find('x');
         if ( x == std::string::npos ) return false;
         std::string c = t.substr(0, x);
         if ( !c.empty() && c[0] == '+' ) c = c.substr(1);
         const std::size_t i = std::strtoul(t.c_str() + x + 1, nullptr, 10);
         if ( i + 1 >= n ) return false;
         row[i] = c.empty() ? Z(1) : c == "-" ? Z(-1) : Z(c);
      }
      if ( !(in >> t) ) return false;
      row[n - 1] = -Z(t);
      return !(in >> t);
   }
   panda::Names names(std::size_t n) { panda::Names r; for ( std::size_t i = 0; i + 1 < n; ++i ) r.push_back("x" + std::to_string(i)); return r; }

   /// threads take rows, find their neighbours in a fixed graph, and put them
   template <typename Tag>
   void hammer()
   {
      const int n = rnd(1, 60), threads = rnd(1, 8), degree = rnd(0, 3), dup = rnd(0, 2);
      std::vector<std::vector<int>> next(n);
      for ( int i = 0; i < n; ++i ) { const int k = rnd(0, degree); for ( int j = 0; j < k; ++j ) next[i].push_back(rnd(0, n - 1)); if ( coin(3) && i + 1 < n ) next[i].push_back(i + 1); if ( dup && coin() ) next[i].push_back(0); }
      std::vector<int> first; const int f = rnd(0, 3); for ( int i = 0; i < f; ++i ) first.push_back(rnd(0, n - 1));
      std::vector<int> extra; if ( !first.empty() && coin() ) { const int k = rnd(1, 6); for ( int i = 0; i < k; ++i ) extra.push_back(rnd(0, n - 1)); }
      std::set<int> reach(first.begin(), first.end());
      for ( std::vector<int> todo(reach.begin(), reach.end()); !todo.empty(); ) { const int x = todo.back(); todo.pop_back(); for ( int y : next[x] ) if ( reach.insert(y).second ) todo.push_back(y); }
      std::vector<int> ok; for ( int x : extra ) if ( reach.count(x) ) ok.push_back(x);
      extra = ok;      // rows known from the beginning are among those that are found
      const unsigned seed = rnd(1, 1000000);
      begin("List<BigInteger, " + std::string(std::is_same<Tag, panda::tag::facet>::value ? "facet" : "vertex") + ">: " + std::to_string(threads) + " threads, neighbours " + str(next) + ", first " + str(first) + ", later " + str(extra) + ", seed " + std::to_string(seed));
      auto row_of = [](int i) { return panda::Row<BigInteger>{BigInteger(i + 1), BigInteger(-(i % 7)), BigInteger(1)}; };
      std::vector<std::vector<int>> taken(threads + 1);
      std::vector<std::string> lines = lines_of([&]()
      {
         panda::List<BigInteger, Tag> list(names(3));
         std::vector<std::thread> ts;
         auto work = [&](int id)
         {
            unsigned st = seed + 977 * id;
            for ( ;; )
            {
               const auto r = list.get();
               if ( r.empty() ) break;
               const int i = static_cast<int>(value(r[0])) - 1;
               taken[id].push_back(i);
               pause_a_bit(st);
               panda::Matrix<BigInteger> m;
               if ( i >= 0 && i < n ) for ( int y : next[i] ) m.push_back(row_of(y));
               list.put(m);
               ++progress;
               pause_a_bit(st);
            }
         };
         auto later = [&]() { unsigned st = seed; for ( int x : extra ) { list.put(row_of(x)); pause_a_bit(st); } };
         panda::Matrix<BigInteger> m; for ( int x : first ) m.push_back(row_of(x));
         list.put(m);      // as in the program: the first rows are there before the threads start
         for ( int i = 0; i < threads; ++i ) ts.emplace_back(work, i);
         ts.emplace_back(later);
         for ( auto& t : ts ) t.join();
      });
      ++progress;
      std::multiset<int> done;
      for ( const auto& t : taken ) done.insert(t.begin(), t.end());
      for ( int x : reach ) expect(done.count(x) == 1, "row " + std::to_string(x) + " was handed out " + std::to_string(done.count(x)) + " times");
      expect(done.size() == reach.size(), "rows were handed out that are not reached");
      S printed;
      for ( const auto& l : lines )
      {
         V r;
         if ( !parse(l, 3, std::is_same<Tag, panda::tag::facet>::value, r) ) fail("printed line " + l);
         expect(printed.insert(r).second, "printed twice: " + l);
      }
      S want; for ( int x : reach ) want.insert(V{Z(x + 1), Z(-(x % 7)), Z(1)});
      expect(printed == want, "the rows printed are not the rows put");
   }

   /// callers that wait are all woken if there is a row for each of them
   void waiters()
   {
      const int n = rnd(1, 5);
      begin("List<BigInteger, vertex>: " + std::to_string(n) + " threads wait, then " + std::to_string(n) + " rows are put at once");
      lines_of([&]()
      {
         panda::List<BigInteger, panda::tag::vertex> list(panda::Names{});
         auto row_of = [](int i) { return panda::Row<BigInteger>{BigInteger(i + 1), BigInteger(1)}; };
         list.put(panda::Matrix<BigInteger>{row_of(0)});
         list.get();
         std::atomic<int> busy(0);
         std::vector<std::thread> ts;
         for ( int i = 0; i < n; ++i ) ts.emplace_back([&]() { const auto r = list.get(); if ( r.empty() ) dead("no row was handed out"); ++busy; while ( busy < n ) std::this_thread::yield(); });
         std::this_thread::sleep_for(std::chrono::milliseconds(5));
         panda::Matrix<BigInteger> m; for ( int i = 0; i < n; ++i ) m.push_back(row_of(i + 1));
         list.put(m);
         for ( auto& t : ts ) t.join();
      });
      ++progress;
   }

   V primitive(V v) { const Z g = vgcd(v); if ( g > 1 ) for ( auto& z : v ) z /= g; return v; }
   Z det(const M& a)
   {
      if ( a.empty() ) return 1;
      if ( a.size() == 1 ) return a[0][0];
      Z s = 0;
      for ( std::size_t j = 0; j < a.size(); ++j )
      {
         if ( a[0][j] == 0 ) continue;
         M b; for ( std::size_t i = 1; i < a.size(); ++i ) { V r; for ( std::size_t k = 0; k < a.size(); ++k ) if ( k != j ) r.push_back(a[i][k]); b.push_back(r); }
         s += (j % 2 ? -1 : 1) * a[0][j] * det(b);
      }
      return s;
   }
   /// the facets of the cone spanned by the rows: all r with r * x <= 0, tight at linearly independent n - 1 rows (n = length)
   S facets(const M& rows)
   {
      const std::size_t n = rows[0].size();
      S out;
      std::vector<std::size_t> ix(n - 1);
      std::function<void(std::size_t, std::size_t)> go = [&](std::size_t k, std::size_t from)
      {
         if ( k == n - 1 )
         {
            V r(n);
            for ( std::size_t j = 0; j < n; ++j ) { M b; for ( std::size_t i : ix ) { V q; for ( std::size_t c = 0; c < n; ++c ) if ( c != j ) q.push_back(rows[i][c]); b.push_back(q); } r[j] = (j % 2 ? -1 : 1) * det(b); }
            if ( vgcd(r) == 0 ) return;
            bool pos = false, neg = false;
            for ( const auto& x : rows ) { const Z d = zdot(r, x); pos = pos || d > 0; neg = neg || d < 0; }
            if ( pos && neg ) return;
            if ( pos ) for ( auto& z : r ) z = -z;
            out.insert(primitive(r));
            return;
         }
         for ( std::size_t i = from; i < rows.size(); ++i ) { ix[k] = i; go(k + 1, i + 1); }
      };
      go(0, 0);
      return out;
   }
   bool full(const M& rows) { const std::size_t n = rows[0].size(); bool any = false; std::function<void(M, std::size_t)> go = [&](M b, std::size_t from) { if ( any ) return; if ( b.size() == n ) { any = det(b) != 0; return; } for ( std::size_t i = from; i < rows.size() && !any; ++i ) { M c = b; c.push_back(rows[i]); go(c, i + 1); } }; go({}, 0); return any; }

   template <typename Tag>
   void enumerate()
   {
      const bool facet = std::is_same<Tag, panda::tag::facet>::value;
      const std::size_t d = rnd(2, 3), n = d + 1;
      // points, closed under a permutation of the coordinates
      const bool with_map = coin();
      std::vector<std::size_t> p(d); for ( std::size_t i = 0; i < d; ++i ) p[i] = i;
      if ( with_map ) std::shuffle(p.begin(), p.end(), rng());
      S pts;
      const int count = rnd(d + 1, 9);
      for ( int i = 0; i < count; ++i )
      {
         V x; for ( std::size_t j = 0; j < d; ++j ) x.push_back(rnd(-2, 2)); x.push_back(1);
         for ( int k = 0; k < 12 && pts.insert(x).second; ++k ) { V y(x); for ( std::size_t j = 0; j < d; ++j ) y[j] = x[p[j]]; x = y; }
      }
      M in(pts.begin(), pts.end());
      std::shuffle(in.begin(), in.end(), rng());
      if ( !full(in) ) return;
      S want = facets(in);
      if ( !facet )
      {  // the polar direction: the inequalities are given
         M rows(want.begin(), want.end());
         V trivial(n, Z(0)); trivial.back() = -1;
         rows.push_back(trivial);
         in = rows;
         want = facets(in);
      }
      panda::Maps maps;
      if ( with_map ) { panda::Map m(n); for ( std::size_t j = 0; j < d; ++j ) m[j].push_back({p[j], 1}); m[d].push_back({d, 1}); maps.push_back(m); }
      // classes
      std::map<V, int> cls; int classes = 0;
      for ( const auto& r : want ) if ( !cls.count(r) )
      {
         std::vector<V> todo{r};
         while ( !todo.empty() ) { V x = todo.back(); todo.pop_back(); if ( !cls.insert({x, classes}).second ) continue; if ( with_map ) { V y(x), z(x); for ( std::size_t j = 0; j < d; ++j ) { y[j] = x[p[j]]; z[p[j]] = x[j]; } todo.push_back(y); todo.push_back(z); } }
         ++classes;
      }
      M known;
      if ( coin() ) for ( const auto& r : want ) if ( coin() ) { V k(r); if ( facet && coin(3) ) for ( auto& z : k ) z *= 2; known.push_back(k); }
      const int threads = rnd(1, 6);
      begin(std::string("adjacencyDecomposition<BigInteger, ") + (facet ? "facet" : "vertex") + "> -t " + std::to_string(threads) + ": rows " + str(in) + ", permutation " + str(p) + (with_map ? " as map" : "") + ", known " + str(known));
      std::string a0 = "panda", a1 = "-t", a2 = std::to_string(threads);
      char* argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
      const auto data = std::make_tuple(mat<BigInteger>(in), facet ? names(n) : panda::Names{}, maps, mat<BigInteger>(known));
      const auto lines = lines_of([&]() { panda::implementation::adjacencyDecomposition<panda::JobManager>(3, argv, data, Tag{}); });
      ++progress;
      std::map<int, V> got;
      for ( std::size_t i = 1; i < lines.size(); ++i )
      {
         V r;
         if ( !parse(lines[i], n, facet, r) ) fail("printed line " + lines[i]);
         if ( !cls.count(r) ) fail("printed, but not a " + std::string(facet ? "facet" : "vertex") + ": " + lines[i]);
         if ( !got.insert({cls[r], r}).second ) fail("two rows of one class: " + str(r) + " and " + str(got[cls[r]]));
      }
      expect(static_cast<int>(got.size()) == classes, "classes are missing: " + std::to_string(got.size()) + " printed, " + std::to_string(classes) + " exist");
   }
}
void run()
{
   std::thread(watchdog, 60).detach();
   while ( time_left() )
   {
      if ( coin(6) ) waiters();
      guard(120);
      switch ( rnd(0, 3) ) { case 0: hammer<panda::tag::facet>(); break; case 1: hammer<panda::tag::vertex>(); break; case 2: enumerate<panda::tag::facet>(); break; default: enumerate<panda::tag::vertex>(); break; }
   }
}
