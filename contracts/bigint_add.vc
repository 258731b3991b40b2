@unit bigint_add
@tu src/big_integer_arithmetics.cpp
@mode impl
@lib prelude bigint
@import bigint_base bigint_cmp

@fn fallbackAddAssign(first, second)
@alias second=first
@requires norm(first) && norm(second)
@throws
@ensures [sum] val(first) == val(old(first)) + val(second) && wf(first)
@exc [untouched when raising] first == old(first)

@fn fallbackSubtractAssign(first, second)
@alias second=first
@requires norm(first) && norm(second)
@throws
@ensures [difference] val(first) == val(old(first)) - val(second) && wf(first)
@exc [untouched when raising] first == old(first)

@fn panda::BigInteger::operator+=(second) key "operator+=(const panda::BigInteger &)"
@alias second=this
@requires norm(this) && wf(second)
@ensures [sum] val(this) == val(old(this)) + val(second)
@ensures [no leading zeros] norm(this)
@ensures [zero is positive] wf(old(this)) || val(second) != 0 ==> wf(this)
@entry lemma_nolead(this.data); lemma_nolead(second.data);

@fn panda::BigInteger::operator-=(second) key "operator-=(const panda::BigInteger &)"
@alias second=this
@requires wf(this) && wf(second)
@ensures [difference] val(this) == val(old(this)) - val(second)
@ensures [zero is positive] wf(this)
@entry lemma_nolead(this.data); lemma_nolead(second.data);

@fn panda::BigInteger::operator+(second) key "operator+(const panda::BigInteger &)"
@requires wf(this) && wf(second)
@ensures [sum] val(result) == val(this) + val(second) && wf(result)

@fn panda::BigInteger::operator-(second) key "operator-(const panda::BigInteger &)"
@requires wf(this) && wf(second)
@ensures [difference] val(result) == val(this) - val(second) && wf(result)
