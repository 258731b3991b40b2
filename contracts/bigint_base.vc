@unit bigint_base
@tu src/big_integer.cpp
@tu src/big_integer_constructors.cpp
@mode impl
@lib prelude bigint

@fn panda::BigInteger::addMagnitude(second)
@alias second=this.data
@requires nolead(this.data) && nolead(second)
@ensures [magnitudes add up] mag(this.data) == mag(old(this).data) + mag(second)
@ensures [sign kept] this.sign == old(this).sign
@ensures [no leading zeros] nolead(this.data)
@loop 0
@before lemma_take_all(this.data); lemma_take_all(old(second)); assert(bp(0) == 1); lemma_mag_zeros(this.data, old(this).data.len() as int); assert(this.data.take(old(this).data.len() as int) =~= old(this).data);
@invariant [prefix sum with carry] i <= old(second).len() && mag(this.data.take(i as int)) + (if carry { 1int } else { 0int }) * bp(i as int) == mag(pre(this).data.take(i as int)) + mag(old(second).take(i as int))
@invariant [rest untouched] forall|j: int| i <= j < this.data.len() ==> #[trigger] this.data[j] == pre(this).data[j]
@start lemma_take(pre(this).data, i as int); lemma_take(old(second), i as int); lemma_bp(i as int);
@end lemma_take(this.data, start(i) as int); assert(this.data.take(start(i) as int) =~= start(this).data.take(start(i) as int));
  let x = start(this).data[start(i) as int] as int; let y = old(second)[start(i) as int] as int; let c0 = if start(carry) { 1int } else { 0int }; let c1 = if carry { 1int } else { 0int };
  let r = this.data[start(i) as int] as int;
  assert(r + c1 * W() == x + y + c0);
  lemma_add_step(x, y, r, c0, c1, mag(this.data.take(start(i) as int)), mag(pre(this).data.take(start(i) as int)), mag(old(second).take(start(i) as int)), bp(start(i) as int));
@after lemma_tail(this.data, pre(this).data, i as int); lemma_take_all(old(second)); assert(old(second).take(old(second).len() as int) =~= old(second));
@loop 1
@invariant [prefix sum with carry] old(second).len() <= i <= this.data.len() && mag(this.data.take(i as int)) + (if carry { 1int } else { 0int }) * bp(i as int) == mag(pre(this).data.take(i as int)) + (if pre(carry) { 1int } else { 0int }) * bp(old(second).len() as int)
@invariant [rest untouched] forall|j: int| i <= j < this.data.len() ==> #[trigger] this.data[j] == pre(this).data[j]
@start lemma_take(pre(this).data, i as int); lemma_bp(i as int);
@end lemma_take(this.data, start(i) as int); assert(this.data.take(start(i) as int) =~= start(this).data.take(start(i) as int));
  let x = start(this).data[start(i) as int] as int; let c1 = if carry { 1int } else { 0int };
  let r = this.data[start(i) as int] as int;
  assert(r + c1 * W() == x + 0 + 1); assert(0 * bp(start(i) as int) == 0 && 1 * bp(start(i) as int) == bp(start(i) as int));
  lemma_add_step(x, 0, r, 1, c1, mag(this.data.take(start(i) as int)), mag(pre(this).data.take(start(i) as int)), (if pre(carry) { 1int } else { 0int }) * bp(old(second).len() as int), bp(start(i) as int));
@after lemma_tail(this.data, pre(this).data, i as int); assert(this.data.push(1u64).drop_last() =~= this.data); if i == this.data.len() { lemma_take_all(this.data); lemma_take_all(pre(this).data); }
@return lemma_mag_top(this.data); lemma_mag_top(old(second)); lemma_mag_top(old(this).data); lemma_bp(this.data.len() - 1);

@fn panda::BigInteger::subtractMagnitude(second)
@alias second=this.data
@requires nolead(this.data) && nolead(second) && mag(this.data) >= mag(second) && (this.sign == 0 || this.sign == 1)
@ensures [magnitudes subtract] mag(this.data) == mag(old(this).data) - mag(second)
@ensures [sign kept unless zero] this.sign == (if mag(this.data) == 0 { 0i32 } else { old(this).sign })
@ensures [no leading zeros] wf(this)
@entry if this.data.len() < old(second).len() { lemma_longer(this.data, old(second)); }
@loop 0
@before lemma_take_all(this.data); lemma_take_all(old(second)); assert(bp(0) == 1);
@invariant [prefix difference with borrow] i <= old(second).len() && mag(this.data.take(i as int)) - (if carry { 1int } else { 0int }) * bp(i as int) == mag(pre(this).data.take(i as int)) - mag(old(second).take(i as int))
@invariant [rest untouched] forall|j: int| i <= j < this.data.len() ==> #[trigger] this.data[j] == pre(this).data[j]
@start lemma_take(pre(this).data, i as int); lemma_take(old(second), i as int); lemma_bp(i as int);
@end lemma_take(this.data, start(i) as int); assert(this.data.take(start(i) as int) =~= start(this).data.take(start(i) as int));
  let x = start(this).data[start(i) as int] as int; let y = old(second)[start(i) as int] as int; let c0 = if start(carry) { 1int } else { 0int }; let c1 = if carry { 1int } else { 0int };
  let r = this.data[start(i) as int] as int;
  assert(r - c1 * W() == x - y - c0);
  lemma_sub_step(x, y, r, c0, c1, mag(this.data.take(start(i) as int)), mag(pre(this).data.take(start(i) as int)), mag(old(second).take(start(i) as int)), bp(start(i) as int));
@after lemma_tail(this.data, pre(this).data, i as int); lemma_take_all(old(second)); assert(old(second).take(old(second).len() as int) =~= old(second));
@loop 1
@invariant [prefix difference with borrow] old(second).len() <= i <= this.data.len() && mag(this.data.take(i as int)) - (if carry { 1int } else { 0int }) * bp(i as int) == mag(pre(this).data.take(i as int)) - (if pre(carry) { 1int } else { 0int }) * bp(old(second).len() as int)
@invariant [rest untouched] forall|j: int| i <= j < this.data.len() ==> #[trigger] this.data[j] == pre(this).data[j]
@start lemma_take(pre(this).data, i as int); lemma_bp(i as int);
@end lemma_take(this.data, start(i) as int); assert(this.data.take(start(i) as int) =~= start(this).data.take(start(i) as int));
  let x = start(this).data[start(i) as int] as int; let c1 = if carry { 1int } else { 0int };
  let r = this.data[start(i) as int] as int;
  assert(r - c1 * W() == x - 0 - 1); assert(0 * bp(start(i) as int) == 0 && 1 * bp(start(i) as int) == bp(start(i) as int));
  lemma_sub_step(x, 0, r, 1, c1, mag(this.data.take(start(i) as int)), mag(pre(this).data.take(start(i) as int)), (if pre(carry) { 1int } else { 0int }) * bp(old(second).len() as int), bp(start(i) as int));
@after lemma_tail(this.data, pre(this).data, i as int); lemma_take_all(this.data); lemma_take_all(pre(this).data); lemma_mag_bound(this.data.take(i as int)); lemma_mag_bound(this.data);
  if carry { if i == this.data.len() { assert(1 * bp(i as int) == bp(i as int)); } }

@fn panda::BigInteger::shrinkToFit()
@requires this.data.len() >= 1 && (this.sign == 0 || this.sign == 1)
@ensures [value of the digits kept] mag(this.data) == mag(old(this).data)
@ensures [no leading zeros] wf(this)
@ensures [sign kept unless zero] this.sign == (if mag(this.data) == 0 { 0i32 } else { old(this).sign })
@loop 0
@invariant [digits removed are zero] 1 <= this.data.len() && mag(this.data) == mag(pre(this).data) && this.sign == pre(this).sign
@decreases this.data.len()
@start assert(0 * bp(this.data.len() - 1) == 0);
@after lemma_mag_top(this.data); if this.data.len() == 1 { assert(nolead(this.data)); } lemma_nolead(this.data);

@fn panda::BigInteger::isZero()
@pure (this.data.len() == 1 && this.data[0] == 0)

@fn panda::BigInteger::isNegative()
@pure (this.sign == 1)

@fn panda::BigInteger::isPositive()
@pure (this.sign == 0 && !(this.data.len() == 1 && this.data[0] == 0))

@fn panda::BigInteger::isMagnitudeSmallerThan(second)
@requires nolead(this.data) && nolead(second.data)
@pure (mag(this.data) < mag(second.data))
@entry if this.data.len() < second.data.len() { lemma_longer(this.data, second.data); } else if second.data.len() < this.data.len() { lemma_longer(second.data, this.data); }
@return lemma_mismatch(this.data, second.data);

@fn panda::BigInteger::isMagnitudeGreaterThan(second)
@requires nolead(this.data) && nolead(second.data)
@pure (mag(this.data) > mag(second.data))
@entry if this.data.len() < second.data.len() { lemma_longer(this.data, second.data); } else if second.data.len() < this.data.len() { lemma_longer(second.data, this.data); }
@return lemma_mismatch(this.data, second.data);

@fn panda::BigInteger::flipSign()
@requires norm(this)
@ensures [negated] val(this) == -val(old(this)) && this.data == old(this).data && norm(this)
@ensures [zero stays positive] wf(old(this)) ==> wf(this)
@ensures [only non-zero flips] this.sign == (if mag(this.data) == 0 { old(this).sign } else if old(this).sign == 0 { 1i32 } else { 0i32 })
@entry lemma_nolead(this.data);

@fn panda::BigInteger::setZero()
@ensures [zero] val(this) == 0 && wf(this)
@return lemma_nolead(this.data);

@fn panda::abs(input)
@requires wf(input)
@ensures [absolute value] val(result) == (if val(input) < 0 { -val(input) } else { val(input) }) && wf(result)
@entry lemma_mag_bound(input.data);

@fn panda::BigInteger::operator-() key "panda::BigInteger::operator-()"
@requires wf(this)
@ensures [negation] val(result) == -val(this) && wf(result)

@fn panda::BigInteger::operator<<=(distance) key "operator<<="
@requires nolead(this.data) && distance == 1
@ensures [doubled] mag(this.data) == 2 * mag(old(this).data) && nolead(this.data)
@ensures [sign kept] this.sign == old(this).sign
@ensures [lowest bit clear] this.data[0] & 1u64 == 0
@entry lemma_nolead(this.data); lemma_shl1(this.data[this.data.len() - 1]); assert(0u64 & 1u64 == 0) by (bit_vector);
@loop 0
@before lemma_take_all(pre(this).data); lemma_take_all(old(this).data); lemma_mag_top(old(this).data); assert(1u64 << 63 == 0x8000_0000_0000_0000u64) by (bit_vector); assert(pre(this).data.take(old_size as int) =~= old(this).data); lemma_mag_zeros(pre(this).data, old_size as int);
@invariant [lower digits untouched] 0 <= i <= old_size && forall|j: int| 0 <= j < i ==> #[trigger] this.data[j] == old(this).data[j]
@invariant [room for the carry] i < this.data.len() ==> this.data[i as int] & 1u64 == 0
@invariant [upper digits doubled] mag(this.data) - mag(this.data.take(i as int)) == 2 * (mag(old(this).data) - mag(old(this).data.take(i as int)))
@end let k = start(i) - 1; let x = start(this).data[k]; lemma_shl1(x); lemma_take(old(this).data, k); lemma_bp(k);
  assert(start(this).data.take(k) =~= old(this).data.take(k)); lemma_take(start(this).data, k);
  let c = if x >= 0x8000_0000_0000_0000u64 { 1int } else { 0int };
  if c == 1 { lemma_even_inc(start(this).data[k + 1]); }
  let mid = if c == 1 { start(this).data.update(k + 1, (start(this).data[k + 1] + 1) as u64) } else { start(this).data };
  if c == 1 { lemma_mag_update(start(this).data, k + 1, (start(this).data[k + 1] + 1) as u64); }
  lemma_mag_update(mid, k, x << 1);
  assert(this.data =~= mid.update(k, x << 1));
  assert(this.data.take(k) =~= old(this).data.take(k));
  lemma_double_step(x as int, (x << 1) as int, c, bp(k));
@after lemma_take_all(this.data); lemma_take_all(old(this).data); lemma_mag_top(this.data); lemma_mag_top(old(this).data); lemma_bp(old_size - 1);
  let t = old(this).data[old_size - 1] as int; if t >= 0x8000_0000_0000_0000 { lemma_mag_bound(old(this).data.drop_last()); assert(2 * (t * bp(old_size - 1)) >= W() * bp(old_size - 1)) by (nonlinear_arith) requires 2 * t >= W(), bp(old_size - 1) >= 1; }
@loop 1
@invariant [no whole digits are shifted] block_distance == 0 && this == pre(this)
