// Shared frame of the counterexample drivers: they run the real code (compiled from /repo on every run) against an
// independent oracle, and print the failing input.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

using Z = boost::multiprecision::cpp_int;
using V = std::vector<Z>;
using M = std::vector<V>;

namespace drv
{
   inline std::string& current() { static std::string* s = new std::string; return *s; }
   inline long& evaluations() { static long n = 0; return n; }
   inline std::set<std::size_t>& seen() { static auto* s = new std::set<std::size_t>; return *s; }
   inline std::vector<std::string>& samples() { static auto* s = new std::vector<std::string>; return *s; }
   inline double& seconds() { static double s = 10; return s; }
   inline std::mt19937_64& rng() { static std::mt19937_64 r; return r; }
   inline std::chrono::steady_clock::time_point& start() { static auto t = std::chrono::steady_clock::now(); return t; }
   inline bool time_left() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start()).count() < seconds(); }
   inline long rnd(long lo, long hi) { return std::uniform_int_distribution<long>(lo, hi)(rng()); }
   inline bool coin(int n = 2) { return rnd(0, n - 1) == 0; }

   [[noreturn]] inline void fail(const std::string& what)
   {
      std::cout << "\nFAIL " << what << "\n  input: " << current() << std::endl;
      _exit(1);
   }
   inline void expect(bool ok, const std::string& what) { if ( !ok ) fail(what); }
   template <typename A, typename B>
   void same(const A& got, const B& want, const std::string& what)
   {
      if ( !(got == want) )
      {
         std::ostringstream s;
         s << what << ": got " << got << ", expected " << want;
         fail(s.str());
      }
   }
   /// begins a case; the text identifies the input
   inline void begin(const std::string& text)
   {
      current() = text;
      ++evaluations();
      if ( seen().size() < 2000000 && seen().insert(std::hash<std::string>()(text)).second )
      {
         if ( samples().size() < 6 && coin(40) ) samples().push_back(text);
      }
   }
   template <typename T> std::string str(const T& x) { std::ostringstream s; s << x; return s.str(); }
   template <typename T> std::string str(const std::vector<T>& x)
   {
      std::ostringstream s;
      s << '[';
      for ( std::size_t i = 0; i < x.size(); ++i ) s << (i ? ", " : "") << str(x[i]);
      s << ']';
      return s.str();
   }
   inline void dead(const char* what)
   {
      std::string m = std::string("\nFAIL ") + what + "\n  input: " + current() + "\n";
      if ( write(1, m.data(), m.size()) ) {}
      _exit(1);
   }
   inline void on_signal(int s)
   {
      dead(s == SIGPROF ? "does not terminate (20 s of processor time on one small input)" : s == SIGFPE ? "arithmetic trap" : "crash");
   }
   /// restarts the per-case processor time limit
   inline void guard(int sec = 20)
   {
      itimerval t{{0, 0}, {sec, 0}};
      setitimer(ITIMER_PROF, &t, nullptr);
   }
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0"; }

void run();   // provided by the driver

int main(int argc, char** argv)
{
   using namespace drv;
   seconds() = argc > 1 ? atof(argv[1]) : 10;
   rng().seed(argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1);
   std::signal(SIGSEGV, on_signal);
   std::signal(SIGFPE, on_signal);
   std::signal(SIGABRT, on_signal);
   std::signal(SIGPROF, on_signal);
#ifdef DRV_SAN
   __sanitizer_set_death_callback([]() { dead("memory error or undefined behaviour (sanitizer report on stderr)"); });
#endif
   std::set_terminate([]() { dead("uncaught exception"); });
   start();
   run();
   std::cout << "DONE evaluations=" << evaluations() << " distinct=" << seen().size() << std::endl;
   for ( const auto& s : samples() ) std::cout << "SAMPLE " << s << std::endl;
   std::cout.flush();
   _exit(0);
}
