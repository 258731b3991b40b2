// generator and conversions for the big integer drivers; the representation is read and written directly
#pragma once
#include "common.h"
#define private public
#include "big_integer.h"
#undef private
using panda::BigInteger;
namespace drv
{
   inline BigInteger big(const Z& z)
   {
      BigInteger b;
      b.sign = z < 0 ? BigInteger::Sign::Negative : BigInteger::Sign::Positive;
      Z m = z < 0 ? Z(-z) : z;
      b.data.clear();
      while ( m > 0 ) { b.data.push_back(static_cast<std::uint64_t>(m & Z(~std::uint64_t(0)))); m >>= 64; }
      if ( b.data.empty() ) b.data.push_back(0);
      return b;
   }
   inline Z value(const BigInteger& b)
   {
      Z m = 0;
      for ( std::size_t i = b.data.size(); i-- > 0; ) m = (m << 64) + Z(b.data[i]);
      return b.sign == BigInteger::Sign::Negative ? Z(-m) : m;
   }
   inline void result(const BigInteger& got, const Z& want, const char* what)
   {
      same(value(got), want, what);
      expect(!got.data.empty() && (got.data.size() == 1 || got.data.back() != 0), std::string(what) + ": leading zero digits in the result");
      expect(!(got.sign == BigInteger::Sign::Negative && got.data.size() == 1 && got.data[0] == 0), std::string(what) + ": negative zero");
   }
   inline std::uint64_t digit()
   {
      switch ( rnd(0, 9) )
      {
         case 0: case 1: return 0;
         case 2: case 3: return ~std::uint64_t(0);
         case 4: return 1;
         case 5: return std::uint64_t(1) << rnd(0, 63);
         case 6: return (std::uint64_t(1) << rnd(0, 63)) - 1;
         case 7: return ~(std::uint64_t(1) << rnd(0, 63));
         default: return rng()();
      }
   }
   inline Z number()
   {
      static const std::vector<Z> special{0, 0, 1, -1, 2, -2, 3, 7, 10, Z(2147483647), Z(2147483648), Z(-2147483647), Z("-2147483648"), Z("-2147483649"), Z(1) << 32, (Z(1) << 32) - 1,
         (Z(1) << 63), (Z(1) << 63) - 1, -(Z(1) << 63), (Z(1) << 64), (Z(1) << 64) - 1, -(Z(1) << 64), (Z(1) << 64) + 1, (Z(1) << 128), (Z(1) << 128) - 1, Z(46341), Z(46340), Z(65536), Z(1073741824)};
      const long c = rnd(0, 9);
      Z z;
      if ( c < 3 ) z = special[rnd(0, special.size() - 1)] + rnd(-2, 2) * rnd(0, 1);
      else if ( c == 3 ) z = rnd(-100, 100);
      else if ( c == 4 ) z = rnd(INT32_MIN, INT32_MAX);
      else
      {
         const long n = rnd(1, c < 8 ? 2 : 5);
         z = 0;
         for ( long i = 0; i < n; ++i ) z = (z << 64) + Z(digit());
      }
      if ( coin(3) ) z = -z;
      return z;
   }
   // a pair that is often related (equal, opposite, neighbours, multiples)
   inline std::pair<Z, Z> numbers()
   {
      Z a = number(), b = number();
      switch ( rnd(0, 9) )
      {
         case 0: b = a; break;
         case 1: b = -a; break;
         case 2: b = a + rnd(-1, 1); break;
         case 3: b = -a + rnd(-1, 1); break;
         case 4: a = a * b; break;
         case 5: a = a * b + rnd(-1, 1); break;
         default: break;
      }
      return {a, b};
   }
}
