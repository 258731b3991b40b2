@unit bigint_div
@tu src/big_integer.cpp
@tu src/big_integer_arithmetics.cpp
@mode impl
@lib prelude bigint bigmul bigdiv
@import bigint_base bigint_cmp bigint_add

@fn panda::BigInteger::divideMagnitudesWithRemainder(second)
@alias second=this
@requires norm(this) && norm(second) && mag(second.data) > 0
@ensures [quotient] val(this) == mag(old(this).data) / mag(second.data) && wf(this)
@ensures [remainder] val(result) == mag(old(this).data) % mag(second.data) && wf(result) && (result.data.len() == 1 && result.data[0] == 0 <==> mag(result.data) == 0)
@return lemma_nolead(result.data);
@entry lemma_mag_bound(this.data); lemma_mag_inj(this.data, second.data); lemma_div_small(mag(this.data), mag(second.data)); lemma_topv_all(this.data);
@loop 0
@before lemma_topv_end(this.data); lemma_div_step(0, 0, mag(old(second).data), 0); assert(0 * mag(old(second).data) == 0);
@invariant [digits divided so far] 0 <= it <= 64 * this.data.len() && topv(this.data, it as int) == mag(result.data) * mag(old(second).data) + mag(remainder.data)
@invariant [remainder small] 0 <= mag(remainder.data) < mag(old(second).data) && wf(remainder) && remainder.sign == 0
@invariant [representation] wf(result) && result.sign == 0 && this.data == old(this).data && mag(this.data) == mag(old(this).data)
@decreases it
@start lemma_topv(this.data, it - 1); lemma_mag_bound(remainder.data); lemma_mag_bound(result.data); lemma_bit01(this.data[(it - 1) / 64], ((it - 1) % 64) as u64); lemma_or_low_all((this.data[(it - 1) / 64] >> (((it - 1) % 64) as u64)) & 1u64); lemma_or_low_all(1u64);
@end let x = this.data[(start(it) - 1) / 64]; let b = (x >> (((start(it) - 1) % 64) as u64)) & 1u64;
  lemma_nolead(remainder.data); lemma_nolead(result.data);
  lemma_div_step(mag(start(result).data), mag(start(remainder).data), mag(old(second).data), b as int);
@after lemma_div_end(topv(this.data, 0), mag(old(second).data), mag(result.data), mag(remainder.data));

@fn fallbackDivideAssign(first, second)
@alias second=first
@requires norm(first) && norm(second) && val(second) != 0
@throws
@ensures [quotient] val(first) == tdiv(val(old(first)), val(second)) && wf(first)
@exc [untouched when raising] first == old(first)
@entry lemma_fallback_div(val(first), val(second));

@fn fallbackModuloAssign(first, second)
@alias second=first
@requires norm(first) && norm(second) && val(second) > 0
@throws
@ensures [remainder] val(first) == val(old(first)) % val(second) && wf(first)
@exc [untouched when raising] first == old(first)
@entry lemma_fallback_div(val(first), val(second));

@fn panda::BigInteger::operator/=(second) key "operator/=(const panda::BigInteger &)"
@alias second=this
@requires wf(this) && wf(second)
@throws
@ensures [quotient rounded towards zero] val(second) != 0 && val(this) == tdiv(val(old(this)), val(second)) && wf(this)
@exc [raises only for division by zero] val(second) == 0 && this == old(this)
@entry lemma_nolead(this.data); lemma_nolead(second.data); lemma_tdiv_facts(val(this), val(second)); if mag(second.data) > 0 { lemma_fundamental_div_mod(mag(this.data), mag(second.data)); lemma_tdiv_mag(mag(this.data), mag(second.data)); }

@fn panda::BigInteger::operator%=(second) key "operator%=(const panda::BigInteger &)"
@alias second=this
@requires wf(this) && wf(second)
@throws
@ensures [least non-negative remainder] val(second) > 0 && val(this) == val(old(this)) % val(second) && wf(this)
@exc [raises only for a modulus that is not positive] val(second) <= 0 && this == old(this)
@entry lemma_nolead(this.data); lemma_nolead(second.data); if mag(second.data) > 0 { lemma_mod_neg(mag(this.data), mag(second.data)); }

@fn panda::BigInteger::operator/(second) key "operator/(const panda::BigInteger &)"
@requires wf(this) && wf(second)
@throws
@ensures [quotient rounded towards zero] val(second) != 0 && val(result) == tdiv(val(this), val(second)) && wf(result)
@exc [raises only for division by zero] val(second) == 0
@entry lemma_nolead(second.data);

@fn panda::BigInteger::operator%(second) key "operator%(const panda::BigInteger &)"
@requires wf(this) && wf(second)
@throws
@ensures [least non-negative remainder] val(second) > 0 && val(result) == val(this) % val(second) && wf(result)
@exc [raises only for a modulus that is not positive] val(second) <= 0
