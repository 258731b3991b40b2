// value of a little-endian sequence of 64 bit digits
pub open spec fn W() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn bp(n: int) -> int decreases n { if n <= 0 { 1 } else { W() * bp(n - 1) } }
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
pub open spec fn mag(d: Seq<u64>) -> int decreases d.len() { if d.len() == 0 { 0 } else { mag(d.drop_last()) + (d[d.len() - 1] as int) * bp(d.len() - 1) } }
pub open spec fn nolead(d: Seq<u64>) -> bool { d.len() >= 1 && (d.len() > 1 ==> d[d.len() - 1] != 0) }
// sign-magnitude value; 0 = Positive, 1 = Negative
pub open spec fn val(b: BigInteger) -> int { if b.sign == 1 { -mag(b.data) } else { mag(b.data) } }
pub open spec fn norm(b: BigInteger) -> bool { nolead(b.data) && (b.sign == 0 || b.sign == 1) }
pub open spec fn wf(b: BigInteger) -> bool { norm(b) && (mag(b.data) == 0 ==> b.sign == 0) }
pub open spec fn is_int(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }

pub proof fn lemma_bp(n: int) ensures bp(n) >= 1, n >= 0 ==> bp(n + 1) == W() * bp(n) decreases n
{ if n > 0 { lemma_bp(n - 1); assert(W() * bp(n - 1) >= 1) by (nonlinear_arith) requires bp(n - 1) >= 1, W() >= 1; } }
pub proof fn lemma_take(d: Seq<u64>, i: int) requires 0 <= i < d.len() ensures mag(d.take(i + 1)) == mag(d.take(i)) + (d[i] as int) * bp(i)
{ assert(d.take(i + 1).drop_last() =~= d.take(i)); }
pub proof fn lemma_take_all(d: Seq<u64>) ensures d.take(d.len() as int) == d, mag(d.take(0)) == 0 { assert(d.take(d.len() as int) =~= d); }
pub proof fn lemma_mag_bound(d: Seq<u64>) ensures 0 <= mag(d) < bp(d.len() as int) decreases d.len()
{
  if d.len() > 0 {
    let n = d.len() - 1; lemma_mag_bound(d.drop_last()); lemma_bp(n);
    let x = d[n] as int; let b = bp(n);
    assert(0 <= x * b && x * b + b <= W() * b) by (nonlinear_arith) requires 0 <= x, x + 1 <= W(), b >= 1;
  }
}
// the top digit decides the size
pub proof fn lemma_mag_top(d: Seq<u64>) requires d.len() >= 1
  ensures (d[d.len() - 1] != 0) <==> (mag(d) >= bp(d.len() - 1)), d.len() == 1 ==> mag(d) == d[0], mag(d) >= 0
{
  let n = d.len() - 1; lemma_mag_bound(d.drop_last()); lemma_bp(n);
  let x = d[n] as int; let b = bp(n);
  if x != 0 { assert(x * b >= b) by (nonlinear_arith) requires x >= 1, b >= 1; } else { assert(x * b == 0) by (nonlinear_arith) requires x == 0; }
  if d.len() == 1 { assert(bp(0) == 1); assert(mag(d.drop_last()) == 0); assert(x * 1 == x); }
}
// without leading zeros: zero is a single digit, and more digits means larger
pub proof fn lemma_nolead(d: Seq<u64>) requires nolead(d)
  ensures mag(d) == 0 <==> (d.len() == 1 && d[0] == 0), d.len() > 1 ==> mag(d) >= W(), mag(d) >= 0, d.len() == 1 ==> mag(d) == d[0]
{
  lemma_mag_top(d);
  if d.len() > 1 { lemma_bp(d.len() - 2); lemma_bp(d.len() - 1); assert(W() * bp(d.len() - 2) >= W()) by (nonlinear_arith) requires bp(d.len() - 2) >= 1; }
}
pub proof fn lemma_bp_mono(a: int, b: int) requires 0 <= a <= b ensures bp(a) <= bp(b) decreases b - a
{ if a < b { lemma_bp_mono(a, b - 1); lemma_bp(b - 1); assert(W() * bp(b - 1) >= bp(b - 1)) by (nonlinear_arith) requires bp(b - 1) >= 1, W() >= 1; } }
pub proof fn lemma_longer(a: Seq<u64>, b: Seq<u64>) requires nolead(a), nolead(b), a.len() < b.len() ensures mag(a) < mag(b)
{ lemma_mag_bound(a); lemma_mag_top(b); lemma_bp_mono(a.len() as int, b.len() - 1); }
// first difference from the top decides the order
pub proof fn lemma_top_diff(a: Seq<u64>, b: Seq<u64>, p: int)
  requires a.len() == b.len(), 0 <= p < a.len(), a[p] < b[p], forall|j: int| p < j < a.len() ==> #[trigger] a[j] == b[j]
  ensures mag(a) < mag(b) decreases a.len()
{
  let n = a.len() - 1;
  if p == n {
    lemma_mag_bound(a.drop_last()); lemma_mag_bound(b.drop_last()); lemma_bp(n);
    let x = a[n] as int; let y = b[n] as int; let w = bp(n);
    assert(x * w + w <= y * w) by (nonlinear_arith) requires x + 1 <= y, w >= 1;
  } else {
    assert(a[n] == b[n]);
    assert forall|j: int| p < j < n implies #[trigger] a.drop_last()[j] == b.drop_last()[j] by { assert(a[j] == b[j]); }
    lemma_top_diff(a.drop_last(), b.drop_last(), p);
  }
}
pub proof fn lemma_mag_inj(a: Seq<u64>, b: Seq<u64>) requires nolead(a), nolead(b) ensures mag(a) == mag(b) <==> a =~= b
{
  if mag(a) == mag(b) {
    if a.len() < b.len() { lemma_longer(a, b); } else if b.len() < a.len() { lemma_longer(b, a); }
    lemma_mag_inj_len(a, b);
  }
}
pub proof fn lemma_mag_inj_len(a: Seq<u64>, b: Seq<u64>) requires a.len() == b.len(), mag(a) == mag(b) ensures a =~= b decreases a.len()
{
  if a.len() > 0 {
    let n = a.len() - 1;
    lemma_mag_bound(a.drop_last()); lemma_mag_bound(b.drop_last()); lemma_bp(n);
    let x = a[n] as int; let y = b[n] as int; let w = bp(n);
    if x < y { assert(x * w + w <= y * w) by (nonlinear_arith) requires x + 1 <= y, w >= 1; }
    if y < x { assert(y * w + w <= x * w) by (nonlinear_arith) requires y + 1 <= x, w >= 1; }
    lemma_mag_inj_len(a.drop_last(), b.drop_last());
    assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { if j < n { assert(a[j] == a.drop_last()[j]); assert(b[j] == b.drop_last()[j]); } }
  }
}
pub proof fn lemma_mag_zeros(d: Seq<u64>, k: int) requires 0 <= k <= d.len(), forall|j: int| k <= j < d.len() ==> #[trigger] d[j] == 0 ensures mag(d) == mag(d.take(k)) decreases d.len()
{
  if k < d.len() { let n = d.len() - 1; assert(d[n] == 0); assert(0 * bp(n) == 0) by (nonlinear_arith); lemma_mag_zeros(d.drop_last(), k); assert(d.drop_last().take(k) =~= d.take(k)); }
  else { assert(d.take(k) =~= d); }
}
// one step of a carry chain
pub proof fn lemma_add_step(x: int, y: int, r: int, c0: int, c1: int, lo: int, a: int, b: int, w: int)
  requires lo + c0 * w == a + b, r + c1 * W() == x + y + c0
  ensures (lo + r * w) + c1 * (W() * w) == (a + x * w) + (b + y * w)
{ assert((lo + r * w) + c1 * (W() * w) == (a + x * w) + (b + y * w)) by (nonlinear_arith) requires lo + c0 * w == a + b, r + c1 * W() == x + y + c0; }
pub proof fn lemma_sub_step(x: int, y: int, r: int, c0: int, c1: int, lo: int, a: int, b: int, w: int)
  requires lo - c0 * w == a - b, r - c1 * W() == x - y - c0
  ensures (lo + r * w) - c1 * (W() * w) == (a + x * w) - (b + y * w)
{ assert((lo + r * w) - c1 * (W() * w) == (a + x * w) - (b + y * w)) by (nonlinear_arith) requires lo - c0 * w == a - b, r - c1 * W() == x - y - c0; }
pub proof fn lemma_tail(a: Seq<u64>, b: Seq<u64>, i: int) requires a.len() == b.len(), 0 <= i <= a.len(), forall|j: int| i <= j < a.len() ==> #[trigger] a[j] == b[j]
  ensures mag(a) - mag(a.take(i)) == mag(b) - mag(b.take(i)) decreases a.len()
{
  if i == a.len() { assert(a.take(i) =~= a); assert(b.take(i) =~= b); }
  else {
    let n = a.len() - 1; assert(a[n] == b[n]);
    assert forall|j: int| i <= j < n implies #[trigger] a.drop_last()[j] == b.drop_last()[j] by { assert(a[j] == b[j]); }
    lemma_tail(a.drop_last(), b.drop_last(), i);
    assert(a.drop_last().take(i) =~= a.take(i)); assert(b.drop_last().take(i) =~= b.take(i));
  }
}
pub proof fn lemma_mismatch(a: Seq<u64>, b: Seq<u64>)
  ensures a.len() == b.len() ==> {
    let p = first_diff(a.reverse(), b.reverse());
    &&& 0 <= p <= a.len()
    &&& (p < a.len() && a.reverse()[p] < b.reverse()[p]) <==> mag(a) < mag(b)
    &&& (p < a.len() && a.reverse()[p] > b.reverse()[p]) <==> mag(a) > mag(b)
  }
{
  if a.len() == b.len() {
    let ar = a.reverse(); let br = b.reverse(); lemma_first_diff(ar, br); let p = first_diff(ar, br);
    if p < a.len() {
      let q = a.len() - 1 - p;
      assert(ar[p] == a[q] && br[p] == b[q]);
      assert forall|j: int| q < j < a.len() implies #[trigger] a[j] == b[j] by { let k = a.len() - 1 - j; assert(ar[k] == br[k]); assert(ar[k] == a[j] && br[k] == b[j]); }
      if a[q] < b[q] { lemma_top_diff(a, b, q); } else { lemma_top_diff(b, a, q); }
    } else {
      assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == b[j] by { let k = a.len() - 1 - j; assert(ar[k] == br[k]); assert(ar[k] == a[j] && br[k] == b[j]); }
      assert(a =~= b);
    }
  }
}
pub proof fn lemma_one(x: u64) ensures mag(seq![x]) == x, nolead(seq![x]), mag(Seq::<u64>::empty().push(x)) == x, seq_fill(1, x) =~= seq![x], forall|d: Seq<u64>| d.len() == 1 && d[0] == x ==> #[trigger] mag(d) == x
{
  assert(seq![x].drop_last() =~= Seq::<u64>::empty()); assert(bp(0) == 1); assert(mag(Seq::<u64>::empty()) == 0); let y = x as int; assert(y * 1 == y);
  assert(seq![x] =~= Seq::<u64>::empty().push(x));
  assert forall|d: Seq<u64>| d.len() == 1 && d[0] == x implies #[trigger] mag(d) == x by { assert(d =~= seq![x]); }
}
// order of sign-magnitude numbers (also for "negative zero")
pub open spec fn sm_lt(a: BigInteger, b: BigInteger) -> bool { if a.sign != b.sign { a.sign == 1 } else if a.sign == 0 { mag(a.data) < mag(b.data) } else { mag(a.data) > mag(b.data) } }
pub proof fn lemma_cmp(a: BigInteger, b: BigInteger)
  ensures wf(a) && wf(b) ==> sm_lt(a, b) == (val(a) < val(b)) && (a.sign == b.sign && mag(a.data) == mag(b.data)) == (val(a) == val(b)) && (val(a) == 0 <==> mag(a.data) == 0) && mag(a.data) >= 0 && mag(b.data) >= 0
{ lemma_mag_bound(a.data); lemma_mag_bound(b.data); }
pub proof fn lemma_mag_update(d: Seq<u64>, k: int, v: u64) requires 0 <= k < d.len() ensures mag(d.update(k, v)) == mag(d) + (v - d[k]) * bp(k) decreases d.len()
{
  let n = d.len() - 1; let e = d.update(k, v); let w = bp(k);
  if k == n { assert(e.drop_last() =~= d.drop_last()); assert((v as int) * w == (d[k] as int) * w + (v - d[k]) * w) by (nonlinear_arith); }
  else { assert(e.drop_last() =~= d.drop_last().update(k, v)); lemma_mag_update(d.drop_last(), k, v); assert(e[n] == d[n]); assert(d.drop_last()[k] == d[k]); }
}
pub proof fn lemma_shl1(x: u64)
  ensures (x << 1) as int == 2 * x - (if x >= 0x8000_0000_0000_0000u64 { W() } else { 0 }), (x << 1) & 1 == 0, x >> 63 == (if x >= 0x8000_0000_0000_0000u64 { 1u64 } else { 0u64 }),
    ((x & 0x8000_0000_0000_0000u64) != 0) == (x >= 0x8000_0000_0000_0000u64), 1u64 << 63 == 0x8000_0000_0000_0000u64
{
  assert((x << 1) & 1 == 0) by (bit_vector);
  assert(x >> 63 == (if x >= 0x8000_0000_0000_0000u64 { 1u64 } else { 0u64 })) by (bit_vector);
  assert(((x & 0x8000_0000_0000_0000u64) != 0) == (x >= 0x8000_0000_0000_0000u64)) by (bit_vector);
  assert(1u64 << 63 == 0x8000_0000_0000_0000u64) by (bit_vector);
  assert(x < 0x8000_0000_0000_0000u64 ==> (x << 1) == add(x, x)) by (bit_vector);
  assert(x >= 0x8000_0000_0000_0000u64 ==> (x << 1) == add(sub(x, 0x8000_0000_0000_0000u64), sub(x, 0x8000_0000_0000_0000u64))) by (bit_vector);
}
pub proof fn lemma_even_inc(x: u64) requires x & 1 == 0 ensures x < u64::MAX { assert(x & 1 == 0 ==> x < 0xffff_ffff_ffff_ffffu64) by (bit_vector); }
pub proof fn lemma_double_step(x: int, y: int, c: int, w: int) requires y == 2 * x - c * W() ensures (y - x) * w + c * (W() * w) == x * w
{ assert((y - x) * w + c * (W() * w) == x * w) by (nonlinear_arith) requires y == 2 * x - c * W(); }
