@unit bigint_cmp
@tu src/big_integer_constructors.cpp
@tu src/big_integer_comparisons.cpp
@mode impl
@lib prelude bigint
@import bigint_base

@fn panda::BigInteger::BigInteger() key "panda::BigInteger::BigInteger()"
@ensures [zero] val(result) == 0 && wf(result)
@entry lemma_one(0u64);

@fn panda::BigInteger::BigInteger(value) key "BigInteger(const short)"
@ensures [value] val(result) == value && wf(result)
@return lemma_one(result.data[0]);

@fn panda::BigInteger::BigInteger(value) key "BigInteger(const int)"
@ensures [value] val(result) == value && wf(result)
@return lemma_one(result.data[0]);

@fn panda::BigInteger::BigInteger(value) key "BigInteger(const long)"
@ensures [value] val(result) == value && wf(result)
@return lemma_one(result.data[0]);

@fn panda::BigInteger::BigInteger(value) key "BigInteger(const unsigned short)"
@ensures [value] val(result) == value && wf(result)
@return lemma_one(result.data[0]);

@fn panda::BigInteger::BigInteger(value) key "BigInteger(const unsigned int)"
@ensures [value] val(result) == value && wf(result)
@return lemma_one(result.data[0]);

@fn panda::BigInteger::BigInteger(value) key "BigInteger(const unsigned long)"
@ensures [value] val(result) == value && wf(result)
@return lemma_one(result.data[0]);

@fn panda::BigInteger::operator int() key "operator int"
@requires norm(this)
@throws
@ensures [value] is_int(val(this)) && result as int == val(this) && wf(this)
@exc [raises only when it does not fit] !is_int(val(this)) || !wf(this)
@entry lemma_nolead(this.data); lemma_one(this.data[0]);

@fn panda::BigInteger::operator==(value) key "operator==(const int)"
@requires wf(this)
@pure (val(this) == value as int)
@entry lemma_nolead(this.data); lemma_one(this.data[0]);

@fn panda::BigInteger::operator!=(value) key "operator!=(const int)"
@requires wf(this)
@pure (val(this) != value as int)

@fn panda::BigInteger::operator<(value) key "operator<(const int)"
@requires wf(this)
@pure (val(this) < value as int)
@entry lemma_nolead(this.data); lemma_one(this.data[0]);

@fn panda::BigInteger::operator>(value) key "operator>(const int)"
@requires wf(this)
@pure (val(this) > value as int)
@entry lemma_nolead(this.data); lemma_one(this.data[0]);

@fn panda::BigInteger::operator<=(value) key "operator<=(const int)"
@requires wf(this)
@pure (val(this) <= value as int)

@fn panda::BigInteger::operator>=(value) key "operator>=(const int)"
@requires wf(this)
@pure (val(this) >= value as int)

@fn panda::BigInteger::operator==(second) key "operator==(const panda::BigInteger &)"
@requires norm(this) && norm(second)
@pure (this.sign == second.sign && mag(this.data) == mag(second.data))
@ensures [equal values] wf(this) && wf(second) ==> result == (val(this) == val(second))
@entry lemma_mag_inj(this.data, second.data); lemma_cmp(this, second);

@fn panda::BigInteger::operator!=(second) key "operator!=(const panda::BigInteger &)"
@requires norm(this) && norm(second)
@pure (!(this.sign == second.sign && mag(this.data) == mag(second.data)))
@ensures [different values] wf(this) && wf(second) ==> result == (val(this) != val(second))
@entry lemma_cmp(this, second);

@fn panda::BigInteger::operator<(second) key "operator<(const panda::BigInteger &)"
@requires norm(this) && norm(second)
@pure sm_lt(this, second)
@ensures [smaller value] wf(this) && wf(second) ==> result == (val(this) < val(second))
@entry lemma_cmp(this, second);

@fn panda::BigInteger::operator>(second) key "operator>(const panda::BigInteger &)"
@requires norm(this) && norm(second)
@pure sm_lt(second, this)
@ensures [greater value] wf(this) && wf(second) ==> result == (val(this) > val(second))
@entry lemma_cmp(second, this);

@fn panda::BigInteger::operator<=(second) key "operator<=(const panda::BigInteger &)"
@requires norm(this) && norm(second)
@pure (!sm_lt(second, this))
@ensures [at most] wf(this) && wf(second) ==> result == (val(this) <= val(second))
@entry lemma_cmp(second, this);

@fn panda::BigInteger::operator>=(second) key "operator>=(const panda::BigInteger &)"
@requires norm(this) && norm(second)
@pure (!sm_lt(this, second))
@ensures [at least] wf(this) && wf(second) ==> result == (val(this) >= val(second))
@entry lemma_cmp(this, second);
