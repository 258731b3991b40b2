// bitsets against sets of indices
#include "common.h"
#include "bitset_fixed_size.h"
#include "bitset_variable_size.h"
using namespace drv;
using S = std::set<std::size_t>;
template <typename B> void fill(B& b, S& s, std::size_t cap, int density)
{
   const std::size_t n = density == 0 ? rnd(0, 3) : density == 1 ? rnd(0, cap) : cap;
   for ( std::size_t k = 0; k < n; ++k )
   {
      const std::size_t i = density == 2 ? k : coin(4) ? std::min<std::size_t>(cap - 1, 32 * rnd(0, cap / 32) + (coin() ? 31 : 0)) : rnd(0, cap - 1);
      b.set(i); s.insert(i);
   }
}
inline S below(const S& s, std::size_t n) { return S(s.begin(), s.lower_bound(n)); }
inline bool sub(const S& a, const S& b) { for ( auto x : a ) if ( !b.count(x) ) return false; return true; }
inline S uni(S a, const S& b) { a.insert(b.begin(), b.end()); return a; }
inline std::string text(const S& s) { return str(std::vector<std::size_t>(s.begin(), s.end())); }
// the members of a bitset, read back one by one
template <typename B> S members(const B& b, std::size_t cap, std::size_t bits)
{
   S r;
   for ( std::size_t i = 0; i < cap; ++i ) { B one(bits); one.set(i); if ( b.contains(one, cap) ) r.insert(i); }
   return r;
}
template <typename B> void cases(const std::string& type, std::size_t bits, std::size_t cap)
{
   guard();
   B a(bits), b(bits), c(bits); S sa, sb, sc;
   begin(type + " new set of capacity " + str(cap));
   expect(a.count(cap) == 0 && members(a, cap, bits).empty(), "a new bitset is empty");
   const int d = coin(8) ? 2 : rnd(0, 1);
   fill(a, sa, cap, d); fill(b, sb, cap, coin(8) ? 2 : rnd(0, 1));
   if ( coin(3) ) { b = a; sb = sa; if ( coin() ) { const std::size_t i = rnd(0, cap - 1); b.set(i); sb.insert(i); } }
   if ( coin() ) for ( auto x : uni(sa, sb) ) { if ( !coin(12) ) { c.set(x); sc.insert(x); } }
   else fill(c, sc, cap, 0);
   if ( coin(4) ) { const std::size_t i = rnd(0, cap - 1); c.set(i); sc.insert(i); }
   const std::size_t max = coin(3) ? cap : coin(3) ? std::min<std::size_t>(cap, std::max<std::size_t>(1, 32 * rnd(0, cap / 32) + rnd(0, 2) - 1)) : rnd(1, cap);
   const std::size_t cov = 32 * (1 + (max - 1) / 32);
   begin(type + " capacity " + str(cap) + ", bound " + str(max) + ", a = " + text(sa) + ", b = " + text(sb) + ", c = " + text(sc));
   if ( cap <= 700 || coin(10) ) expect(members(a, cap, bits) == sa, "members after set");
   const S A = below(sa, cov), Bb = below(sb, cov), C = below(sc, cov);
   same(a.count(max), A.size(), "count");
   same(a.equals(b, max), A == Bb, "equals");
   same(a.contains(b, max), sub(Bb, A), "contains");
   same(a.contains(c, max), sub(C, A), "contains");
   same(B::unionCount(a, b, max), uni(A, Bb).size(), "unionCount");
   same(B::unionContains(a, b, c, max), sub(C, uni(A, Bb)), "unionContains");
   const B m = a.merge(b, max);
   S want = uni(A, Bb); for ( auto x : sa ) want.insert(x);
   same(m.count(cap), want.size(), "count of merge");
   if ( cap <= 700 || coin(10) ) expect(members(m, cap, bits) == want, "merge");
   else { B w(bits); for ( auto x : want ) w.set(x); expect(w.equals(m, cap), "merge"); }
   B w(bits); for ( auto x : sa ) w.set(x);
   expect(w.equals(a, cap), "operands are unchanged");
}
template <std::size_t N> void fixed() { cases<panda::BitsetFixedSize<N>>("BitsetFixedSize<" + str(N) + ">", 32 * N, 32 * N); }
void run()
{
   while ( time_left() )
   {
      for ( int k = 0; k < 8; ++k )
      {
         const std::size_t cap = coin(20) ? rnd(1, 6500) : coin(3) ? 32 * rnd(1, 6) + rnd(0, 2) - 1 : rnd(1, 200);
         cases<panda::BitsetVariableSize>("BitsetVariableSize", cap, cap);
      }
      fixed<1>(); fixed<2>(); fixed<3>(); fixed<4>(); fixed<6>(); fixed<8>(); fixed<10>(); fixed<12>(); fixed<16>(); fixed<20>();
      if ( coin(3) ) { fixed<30>(); fixed<40>(); fixed<50>(); fixed<75>(); fixed<100>(); fixed<150>(); fixed<200>(); fixed<5>(); fixed<7>(); }
   }
}
