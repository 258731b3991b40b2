@unit bigint_mul
@tu src/big_integer_arithmetics.cpp
@mode impl
@lib prelude bigint bigmul
@import bigint_base bigint_cmp bigint_add

@fn fallbackMultiplyAssign(first, second)
@alias second=first
@requires norm(first) && norm(second) && val(second) != 0 && val(second) != -1 && val(first) != 0
@throws
@ensures [product] val(first) == val(old(first)) * val(second) && wf(first)
@exc [untouched when raising] first == old(first)
@entry lemma_fallback_mul(val(first), val(second));

@fn panda::BigInteger::operator*=(second) key "operator*=(const panda::BigInteger &)"
@alias second=this
@requires wf(this) && wf(second)
@ensures [product] val(this) == val(old(this)) * val(second) && wf(this)
@entry lemma_nolead(this.data); lemma_nolead(second.data); lemma_one(0u64); lemma_products(val(this), val(second), mag(this.data), mag(second.data));
@loop 0
@before assert(mag(factor.take(0)) == 0); assert(bp(0) == 1);
@invariant [shifted multiplicand] nolead(copy.data) && copy.sign == old(this).sign && mag(copy.data) == mag(old(this).data) * bp($k)
@invariant [product with the digits so far] mag(this.data) == mag(old(this).data) * mag(factor.take($k))
@invariant [representation] norm(this) && this.sign == old(this).sign && mag(old(this).data) > 0 && factor == old(second).data
@start lemma_low0(entry); lemma_bp($k); lemma_take(factor, $k);
@after lemma_take_all(factor); lemma_pos_mul(mag(old(this).data), mag(old(second).data)); lemma_mag_bound(old(second).data);
@loop 1
@invariant [bit position] 0 <= j <= 64 && pow2ish(mask) && mask as int == (if j < 64 { p2(j as int) } else { 0 })
@invariant [shifted multiplicand] nolead(copy.data) && copy.sign == old(this).sign && mag(copy.data) == mag(old(this).data) * bp($k0) * p2(j as int)
@invariant [product with the bits so far] mag(this.data) == mag(old(this).data) * (mag(factor.take($k0)) + low(entry, mask) * bp($k0))
@invariant [representation] norm(this) && this.sign == old(this).sign && mag(old(this).data) > 0
@start lemma_p2(j as int); lemma_bit(entry, mask); lemma_bp($k0); lemma_pos_mul(mag(old(this).data), bp($k0)); lemma_pos_mul(mag(old(this).data) * bp($k0), p2(j as int)); lemma_mag_bound(this.data);
@end lemma_mag_bound(this.data); lemma_mul_step(mag(old(this).data), mag(factor.take($k0)), low(entry, start(mask)) as int, start(mask) as int, bp($k0)); lemma_dbl(mag(old(this).data) * bp($k0), p2(start(j) as int));
@after lemma_low_all(entry, mask); lemma_dbl(mag(old(this).data), bp($k0)); lemma_p2_64();

@fn panda::BigInteger::operator*(second) key "operator*(const panda::BigInteger &)"
@requires wf(this) && wf(second)
@ensures [product] val(result) == val(this) * val(second) && wf(result)
