@unit safeint
@tu src/algorithm_integer_operations.cpp
@mode impl
@lib prelude safeint
@root panda::SafeInteger
@root panda::abs

@fn panda::error(reason, a) key "error<short>"
@throws
@ensures [always raises] false

@fn panda::error(reason, a) key "error<int>"
@throws
@ensures [always raises] false

@fn panda::error(reason, a) key "error<long>"
@throws
@ensures [always raises] false

@fn panda::error(reason, a) key "error<unsigned short>"
@throws
@ensures [always raises] false

@fn panda::error(reason, a) key "error<unsigned int>"
@throws
@ensures [always raises] false

@fn panda::error(reason, a) key "error<unsigned long>"
@throws
@ensures [always raises] false

@fn panda::error(reason, a, b) key "const long,const long)"
@throws
@ensures [always raises] false

@fn panda::SafeInteger::operator*=(second) key "operator*="
@alias second=this
@throws
@ensures [exact result] old(this).data * old(second).data == this.data as int
@exc [raises only when the result does not exist or is not representable] !rep(old(this).data * old(second).data)
@entry lemma_arith(this.data as int, second.data as int);

@fn panda::SafeInteger::operator/=(second) key "operator/="
@alias second=this
@throws
@ensures [exact result] old(second).data != 0 && tdiv(old(this).data as int, old(second).data as int) == this.data as int
@exc [raises only when the result does not exist or is not representable] !(old(second).data != 0) || !rep(tdiv(old(this).data as int, old(second).data as int))
@entry lemma_arith(this.data as int, second.data as int);

@fn panda::SafeInteger::operator+=(second) key "operator+="
@alias second=this
@throws
@ensures [exact result] old(this).data + old(second).data == this.data as int
@exc [raises only when the result does not exist or is not representable] !rep(old(this).data + old(second).data)

@fn panda::SafeInteger::operator-=(second) key "operator-="
@alias second=this
@throws
@ensures [exact result] old(this).data - old(second).data == this.data as int
@exc [raises only when the result does not exist or is not representable] !rep(old(this).data - old(second).data)

@fn panda::SafeInteger::operator%=(second) key "operator%="
@alias second=this
@throws
@ensures [exact result] old(second).data > 0 && emod(old(this).data as int, old(second).data as int) == this.data as int
@exc [raises only when the result does not exist or is not representable] !(old(second).data > 0) || !rep(emod(old(this).data as int, old(second).data as int))
@entry lemma_arith(this.data as int, second.data as int);

@fn panda::SafeInteger::operator*(second) key "operator*(const panda::SafeInteger &)const"
@throws
@ensures [exact result] this.data * second.data == result.data as int
@exc [raises only when the result does not exist or is not representable] !rep(this.data * second.data)

@fn panda::SafeInteger::operator/(second) key "operator/(const panda::SafeInteger &)const"
@throws
@ensures [exact result] second.data != 0 && tdiv(this.data as int, second.data as int) == result.data as int
@exc [raises only when the result does not exist or is not representable] !(second.data != 0) || !rep(tdiv(this.data as int, second.data as int))

@fn panda::SafeInteger::operator+(second) key "operator+(const panda::SafeInteger &)const"
@throws
@ensures [exact result] this.data + second.data == result.data as int
@exc [raises only when the result does not exist or is not representable] !rep(this.data + second.data)

@fn panda::SafeInteger::operator-(second) key "operator-(const panda::SafeInteger &)const"
@throws
@ensures [exact result] this.data - second.data == result.data as int
@exc [raises only when the result does not exist or is not representable] !rep(this.data - second.data)

@fn panda::SafeInteger::operator%(second) key "operator%(const panda::SafeInteger &)const"
@throws
@ensures [exact result] second.data > 0 && emod(this.data as int, second.data as int) == result.data as int
@exc [raises only when the result does not exist or is not representable] !(second.data > 0) || !rep(emod(this.data as int, second.data as int))

@fn panda::SafeInteger::operator==(second) key "operator==(const int"
@pure ((this.data as int) == (second as int))

@fn panda::SafeInteger::operator==(second) key "operator==(const panda::SafeInteger &"
@pure ((this.data as int) == (second.data as int))

@fn panda::SafeInteger::operator!=(second) key "operator!=(const int"
@pure ((this.data as int) != (second as int))

@fn panda::SafeInteger::operator!=(second) key "operator!=(const panda::SafeInteger &"
@pure ((this.data as int) != (second.data as int))

@fn panda::SafeInteger::operator<(second) key "operator<(const int"
@pure ((this.data as int) < (second as int))

@fn panda::SafeInteger::operator<(second) key "operator<(const panda::SafeInteger &"
@pure ((this.data as int) < (second.data as int))

@fn panda::SafeInteger::operator>(second) key "operator>(const int"
@pure ((this.data as int) > (second as int))

@fn panda::SafeInteger::operator>(second) key "operator>(const panda::SafeInteger &"
@pure ((this.data as int) > (second.data as int))

@fn panda::SafeInteger::operator<=(second) key "operator<=(const int"
@pure ((this.data as int) <= (second as int))

@fn panda::SafeInteger::operator<=(second) key "operator<=(const panda::SafeInteger &"
@pure ((this.data as int) <= (second.data as int))

@fn panda::SafeInteger::operator>=(second) key "operator>=(const int"
@pure ((this.data as int) >= (second as int))

@fn panda::SafeInteger::operator>=(second) key "operator>=(const panda::SafeInteger &"
@pure ((this.data as int) >= (second.data as int))

@fn panda::SafeInteger::SafeInteger(value) key "SafeInteger(const short)"
@throws
@ensures [value kept] result.data as int == value as int
@exc [raises only when not representable] !rep(value as int)

@fn panda::SafeInteger::SafeInteger(value) key "SafeInteger(const int)"
@throws
@ensures [value kept] result.data as int == value as int
@exc [raises only when not representable] !rep(value as int)

@fn panda::SafeInteger::SafeInteger(value) key "SafeInteger(const long)"
@throws
@ensures [value kept] result.data as int == value as int
@exc [raises only when not representable] !rep(value as int)

@fn panda::SafeInteger::SafeInteger(value) key "SafeInteger(const unsigned short)"
@throws
@ensures [value kept] result.data as int == value as int
@exc [raises only when not representable] !rep(value as int)

@fn panda::SafeInteger::SafeInteger(value) key "SafeInteger(const unsigned int)"
@throws
@ensures [value kept] result.data as int == value as int
@exc [raises only when not representable] !rep(value as int)

@fn panda::SafeInteger::SafeInteger(value) key "SafeInteger(const unsigned long)"
@throws
@ensures [value kept] result.data as int == value as int
@exc [raises only when not representable] !rep(value as int)

@fn panda::SafeInteger::operator int() key "operator int"
@throws
@ensures [value kept] result as int == this.data as int
@exc [raises only when it does not fit] this.data > i32::MAX || this.data < i32::MIN

@fn panda::SafeInteger::operator-() key "operator-()const"
@throws
@ensures [negated] result.data as int == -(this.data as int)
@exc [raises only when not representable] !rep(-(this.data as int))
@entry lemma_arith(this.data as int, -1);

@fn panda::abs(n) key "abs(panda::SafeInteger)"
@throws
@ensures [absolute value] result.data as int == zabs(n.data as int)
@exc [raises only when not representable] !rep(zabs(n.data as int))
