// conversions and generators for the drivers of the algorithms that are templates over the integer type
#pragma once
#include "bigint.h"
#define private public
#include "safe_integer.h"
#undef private
#include <limits>
using panda::SafeInteger;
namespace drv
{
   template <typename T> struct Conv
   {
      static T to(const Z& z) { return static_cast<T>(z); }
      static Z from(const T& t) { return Z(static_cast<long long>(t)); }
      static Z limit() { return Z(static_cast<long long>(std::numeric_limits<T>::max())); }
   };
   template <> struct Conv<BigInteger>
   {
      static BigInteger to(const Z& z) { return big(z); }
      static Z from(const BigInteger& b) { return value(b); }
      static Z limit() { return Z(1) << 4000; }
   };
   template <> struct Conv<SafeInteger>
   {
      static SafeInteger to(const Z& z) { return SafeInteger(static_cast<std::int64_t>(z)); }
      static Z from(const SafeInteger& b) { return Z(static_cast<long long>(b.data)); }
      static Z limit() { return (Z(1) << 63) - 1; }
   };
   template <typename T> const char* name();
   template <> inline const char* name<std::int16_t>() { return "int16"; }
   template <> inline const char* name<std::int32_t>() { return "int32"; }
   template <> inline const char* name<std::int64_t>() { return "int64"; }
   template <> inline const char* name<BigInteger>() { return "BigInteger"; }
   template <> inline const char* name<SafeInteger>() { return "SafeInteger"; }
   template <typename T> T to(const Z& z) { return Conv<T>::to(z); }
   template <typename T> Z from(const T& t) { return Conv<T>::from(t); }
   template <typename T> std::vector<T> row(const V& v) { std::vector<T> r; for ( const auto& z : v ) r.push_back(to<T>(z)); return r; }
   template <typename T> V unrow(const std::vector<T>& v) { V r; for ( const auto& t : v ) r.push_back(from<T>(t)); return r; }
   template <typename T> std::vector<std::vector<T>> mat(const M& m) { std::vector<std::vector<T>> r; for ( const auto& v : m ) r.push_back(row<T>(v)); return r; }
   template <typename T> M unmat(const std::vector<std::vector<T>>& m) { M r; for ( const auto& v : m ) r.push_back(unrow<T>(v)); return r; }
   inline Z zabs(const Z& z) { return z < 0 ? Z(-z) : z; }
   inline Z zgcd(Z a, Z b) { a = zabs(a); b = zabs(b); while ( b != 0 ) { Z t = a % b; a = b; b = t; } return a; }
   inline Z vgcd(const V& v) { Z g = 0; for ( const auto& z : v ) g = zgcd(g, z); return g; }
   inline Z zdot(const V& a, const V& b) { Z s = 0; for ( std::size_t i = 0; i < a.size(); ++i ) s += a[i] * b[i]; return s; }
   inline Z vmax(const V& v) { Z m = 0; for ( const auto& z : v ) if ( zabs(z) > m ) m = zabs(z); return m; }
   /// an integer of absolute value at most lim, mostly small, sometimes structured
   inline Z bounded(const Z& lim)
   {
      for (;;)
      {
         Z z;
         switch ( rnd(0, 7) )
         {
            case 0: z = 0; break;
            case 1: z = rnd(-1, 1); break;
            case 2: case 3: z = rnd(-10, 10); break;
            case 4: z = rnd(-200, 200); break;
            case 5: z = number(); break;
            case 6: z = lim - rnd(0, 3); if ( coin() ) z = -z; break;
            default: { Z n = number(); z = n % (lim + 1); } break;
         }
         if ( zabs(z) <= lim ) return z;
      }
   }
   inline V vec(std::size_t n, const Z& lim) { V v(n); for ( auto& z : v ) z = bounded(lim); return v; }
   inline V small(std::size_t n, long m) { V v(n); for ( auto& z : v ) z = coin(3) ? 0 : rnd(-m, m); return v; }
   template <template <typename> class F> void each_type()
   {
      F<std::int16_t>::go(); F<std::int32_t>::go(); F<std::int64_t>::go(); F<BigInteger>::go(); F<SafeInteger>::go();
   }
   /// independent rank computation over the rationals (fraction free)
   inline std::size_t zrank(M m)
   {
      std::size_t r = 0;
      if ( m.empty() ) return 0;
      for ( std::size_t c = 0; c < m[0].size() && r < m.size(); ++c )
      {
         std::size_t p = r;
         while ( p < m.size() && m[p][c] == 0 ) ++p;
         if ( p == m.size() ) continue;
         std::swap(m[p], m[r]);
         for ( std::size_t i = r + 1; i < m.size(); ++i )
            if ( m[i][c] != 0 )
            {
               const Z f = m[i][c], g = m[r][c];
               for ( std::size_t j = 0; j < m[i].size(); ++j ) m[i][j] = m[i][j] * g - m[r][j] * f;
               const Z d = vgcd(m[i]);
               if ( d > 1 ) for ( auto& z : m[i] ) z /= d;
            }
         ++r;
      }
      return r;
   }
}
