// conversion of rows and matrices from int to the working type and back
#include "templ.h"
#include "cast.h"
using namespace drv;
template <typename T> struct G { static V c(const std::vector<int>& r) { return unrow<T>(panda::cast<T>(r)); } static M c(const std::vector<std::vector<int>>& r) { return unmat<T>(panda::cast<T>(r)); }
   static V back(const std::vector<T>& r) { return unrow<int>(panda::cast<int>(r)); } static M back(const std::vector<std::vector<T>>& r) { return unmat<int>(panda::cast<int>(r)); } };
template <> struct G<int> { static V c(const std::vector<int>& r) { return unrow<int>(r); } static M c(const std::vector<std::vector<int>>& r) { return unmat<int>(r); }
   static V back(const std::vector<int>& r) { return c(r); } static M back(const std::vector<std::vector<int>>& r) { return c(r); } };
template <typename T> struct F
{
   static void go()
   {
      guard();
      Z lim = (Z(1) << 31) - 1;
      if ( Conv<T>::limit() < lim ) lim = Conv<T>::limit();
      const std::size_t m = coin(20) ? rnd(1, 300) : rnd(0, 8);
      M a; for ( std::size_t i = 0; i < m; ++i ) { a.push_back(vec(rnd(0, 7), lim)); for ( auto& z : a.back() ) if ( coin(20) ) z = -lim - 1; }
      begin(std::string(name<T>()) + " matrix = " + str(a));
      std::vector<std::vector<int>> in; for ( const auto& r : a ) in.push_back(row<int>(r));
      const auto orig = in;
      const M got = G<T>::c(in);
      if ( got != a ) fail("matrix converted to the working type: got " + str(got));
      const M rt = G<T>::back(mat<T>(a));
      if ( rt != a ) fail("matrix converted back to int: got " + str(rt));
      for ( std::size_t i = 0; i < m; ++i )
      {
         if ( G<T>::c(in[i]) != a[i] ) fail("row converted to the working type: got " + str(G<T>::c(in[i])) + ", expected " + str(a[i]));
         if ( G<T>::back(row<T>(a[i])) != a[i] ) fail("row converted back to int: got " + str(G<T>::back(row<T>(a[i]))) + ", expected " + str(a[i]));
      }
      expect(in == orig, "the input is unchanged");
      // entries that do not fit are refused
      V w = vec(rnd(1, 7), lim); const std::size_t k = rnd(0, w.size() - 1); const Z top = Conv<T>::limit() < (Z(1) << 31) - 1 ? Conv<T>::limit() : (Z(1) << 31) - 1;
      Z x; switch ( rnd(0, 3) ) { case 0: x = top + rnd(1, 3); break; case 1: x = (top + 1) * 2 + rnd(-3, 3); break; case 2: x = (top + 1) * rnd(2, 1000) * 2 + rnd(-3, 3); break; default: x = top + 1 + bounded(top); break; }
      if ( x <= top ) x = top + 1;
      if ( coin() ) { x = -x; if ( x == -top - 1 ) x = -top - 2; }
      w[k] = x;
      begin(std::string(name<T>()) + " row = " + str(w));
      if ( Conv<T>::limit() > (Z(1) << 31) - 1 )
      {
         bool refused = false; V got; try { got = G<T>::back(row<T>(w)); } catch ( const std::exception& ) { refused = true; }
         if ( !refused ) fail("an entry that does not fit an int is converted: got " + str(got));
         refused = false; M gotm; M m2{w}; if ( coin() ) m2.insert(m2.begin(), V{1}); if ( coin() ) m2.push_back(V{2});
         try { gotm = G<T>::back(mat<T>(m2)); } catch ( const std::exception& ) { refused = true; }
         if ( !refused ) fail("a matrix with an entry that does not fit an int is converted: got " + str(gotm));
      }
      if ( Conv<T>::limit() < (Z(1) << 31) - 1 && zabs(x) <= (Z(1) << 31) - 1 )
      {
         bool refused = false; V got; try { got = G<T>::c(row<int>(w)); } catch ( const std::exception& ) { refused = true; }
         if ( !refused ) fail("an entry that does not fit the working type is converted: got " + str(got));
      }
   }
};
void run() { while ( time_left() ) each_type<F>(); }
