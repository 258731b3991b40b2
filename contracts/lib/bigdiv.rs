pub open spec fn bitat(d: Seq<u64>, i: int) -> int { ((d[i / 64] >> ((i % 64) as u64)) & 1u64) as int }
// the number formed by the bits at positions >= i
pub open spec fn topv(d: Seq<u64>, i: int) -> int decreases 64 * d.len() - i { if i >= 64 * d.len() || i < 0 { 0 } else { 2 * topv(d, i + 1) + bitat(d, i) } }
pub proof fn lemma_topv(d: Seq<u64>, i: int) requires 0 <= i < 64 * d.len() ensures topv(d, i) == 2 * topv(d, i + 1) + bitat(d, i), 0 <= i / 64 < d.len() {}
pub proof fn lemma_topv_end(d: Seq<u64>) ensures topv(d, (64 * d.len()) as int) == 0 {}
pub open spec fn horner(d: Seq<u64>, k: int) -> int decreases d.len() - k { if k >= d.len() || k < 0 { 0 } else { d[k] as int + W() * horner(d, k + 1) } }
pub proof fn lemma_horner(d: Seq<u64>, k: int) requires 0 <= k <= d.len() ensures bp(k) * horner(d, k) + mag(d.take(k)) == mag(d) decreases d.len() - k
{
  if k == d.len() { lemma_take_all(d); assert(bp(k) * 0 == 0); }
  else { lemma_horner(d, k + 1); lemma_take(d, k); lemma_bp(k); let h = horner(d, k + 1); let b = bp(k); let x = d[k] as int;
    assert(b * (x + W() * h) == x * b + (W() * b) * h) by (nonlinear_arith); }
}
// j bits of digit k below the higher digits
pub proof fn lemma_topv_digit(d: Seq<u64>, k: int, j: int) requires 0 <= k < d.len(), 0 <= j <= 64
  ensures topv(d, 64 * k + j) == p2(64 - j) * topv(d, 64 * (k + 1)) + (if j < 64 { (d[k] >> (j as u64)) as int } else { 0 }) decreases 64 - j
{
  let t = topv(d, 64 * (k + 1));
  if j == 64 { assert(p2(0) == 1); assert(1 * t == t); }
  else {
    lemma_topv_digit(d, k, j + 1);
    let x = d[k]; let i = 64 * k + j;
    assert(i / 64 == k && i % 64 == j);
    assert(bitat(d, i) == ((x >> (j as u64)) & 1u64) as int);
    let a = p2(64 - (j + 1));
    assert(p2(64 - j) == 2 * a);
    assert(2 * (a * t) == (2 * a) * t) by (nonlinear_arith);
    let s = j as u64;
    if j < 63 { assert(s < 63 ==> x >> s == add(mul(2, x >> add(s, 1)), (x >> s) & 1) && (x >> add(s, 1)) < 0x8000_0000_0000_0000u64) by (bit_vector); assert((x >> s) as int == 2 * (x >> add(s, 1)) + ((x >> s) & 1)) by { assert((x >> s) & 1 <= 1) by (bit_vector); }; }
    else { assert((x >> 63) <= 1 && (x >> 63) & 1 == x >> 63) by (bit_vector); }
  }
}
pub proof fn lemma_topv_horner(d: Seq<u64>, k: int) requires 0 <= k <= d.len() ensures topv(d, 64 * k) == horner(d, k) decreases d.len() - k
{ if k < d.len() { lemma_topv_horner(d, k + 1); lemma_topv_digit(d, k, 0); lemma_p2_64(); let x = d[k]; assert(x >> 0 == x) by (bit_vector); } }
pub proof fn lemma_topv_all(d: Seq<u64>) ensures topv(d, 0) == mag(d) { lemma_topv_horner(d, 0); lemma_horner(d, 0); assert(bp(0) == 1); lemma_take_all(d); let h = horner(d, 0); assert(1 * h == h); }
pub proof fn lemma_bit01(x: u64, s: u64) ensures s < 64 ==> ((x >> s) & 1 <= 1) { assert(s < 64 ==> ((x >> s) & 1 <= 1)) by (bit_vector); }
// setting the lowest bit of an even number
pub proof fn lemma_or_low(d: Seq<u64>, v: u64) requires nolead(d), d[0] & 1 == 0, v <= 1
  ensures mag(d.update(0, d[0] | v)) == mag(d) + v, nolead(d.update(0, d[0] | v))
{
  let x = d[0];
  assert(x & 1 == 0 && v <= 1 ==> (x | v) == add(x, v) && x < 0xffff_ffff_ffff_ffffu64) by (bit_vector);
  lemma_mag_update(d, 0, x | v); assert(bp(0) == 1); let y = v as int; assert(y * 1 == y);
}
pub proof fn lemma_or_low_all(v: u64) requires v <= 1
  ensures forall|d: Seq<u64>| nolead(d) && d[0] & 1 == 0 ==> #[trigger] mag(d.update(0, d[0] | v)) == mag(d) + v && nolead(d.update(0, d[0] | v))
{ assert forall|d: Seq<u64>| nolead(d) && d[0] & 1 == 0 implies #[trigger] mag(d.update(0, d[0] | v)) == mag(d) + v && nolead(d.update(0, d[0] | v)) by { lemma_or_low(d, v); } }
pub proof fn lemma_div_small(a: int, b: int) requires a >= 0, b > 0 ensures a < b ==> a / b == 0 && a % b == a, a == b ==> a / b == 1 && a % b == 0
{ if a < b { lemma_small_mod(a as nat, b as nat); lemma_basic_div(a, b); } if a == b { lemma_div_by_self(b); lemma_mod_self_0(b); } }
pub proof fn lemma_div_step(q: int, r: int, s: int, b: int) ensures 2 * (q * s + r) + b == (2 * q) * s + (2 * r + b), (2 * q + 1) * s == (2 * q) * s + s
{ assert(2 * (q * s + r) + b == (2 * q) * s + (2 * r + b)) by (nonlinear_arith); assert((2 * q + 1) * s == (2 * q) * s + s) by (nonlinear_arith); }
pub proof fn lemma_div_end(n: int, s: int, q: int, r: int) requires s > 0, n == q * s + r, 0 <= r < s ensures q == n / s, r == n % s
{ lemma_fundamental_div_mod_converse(n, s, q, r); }

pub proof fn lemma_div_range(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a / b <= a, 0 <= a % b < b, b > 1 && a > 0 ==> a / b < a, a == b * (a / b) + a % b, b == 1 ==> a / b == a
{
  lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
  let q = a / b; let r = a % b;
  assert(q >= 0) by { lemma_div_pos_is_pos(a, b); };
  assert(q <= a) by (nonlinear_arith) requires a == b * q + r, r >= 0, b >= 1, q >= 0;
  if b > 1 && a > 0 { assert(q < a) by (nonlinear_arith) requires a == b * q + r, r >= 0, b >= 2, q >= 0, a > 0; }
  if b == 1 { assert(1 * q == q); }
}
pub proof fn lemma_tdiv_facts(a: int, b: int) ensures b == 1 ==> tdiv(a, b) == a, b == -1 ==> tdiv(a, b) == -a, b != 0 ==> tdiv(0, b) == 0
{ lemma_div_basics(a); lemma_div_basics(-a); if b > 0 { lemma_div_small(0, b); } if b < 0 { lemma_div_small(0, -b); } }
pub proof fn lemma_tdiv_mag(a: int, b: int) requires a >= 0, b > 0 ensures tdiv(a, b) == a / b, tdiv(-a, b) == -(a / b), tdiv(a, -b) == -(a / b), tdiv(-a, -b) == a / b, a / b >= 0
{ lemma_div_range(a, b); if a == 0 { lemma_div_small(0, b); } }
pub proof fn lemma_mod_neg(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a % b < b, (-a) % b == (if a % b == 0 { 0 } else { b - a % b })
{
  lemma_div_range(a, b); let q = a / b; let r = a % b;
  if r == 0 { assert(-a == (-q) * b + 0) by (nonlinear_arith) requires a == b * q + 0; lemma_fundamental_div_mod_converse(-a, b, -q, 0); }
  else { assert(-a == (-q - 1) * b + (b - r)) by (nonlinear_arith) requires a == b * q + r; lemma_fundamental_div_mod_converse(-a, b, -q - 1, b - r); }
}
pub proof fn lemma_fallback_div(a: int, b: int) requires b != 0
  ensures is_int(a) && is_int(b) && !(a == -0x8000_0000 && b == -1) ==> is_int(tdiv(a, b)), b > 0 ==> -b < tmod(a, b) < b && a % b == (if tmod(a, b) < 0 { tmod(a, b) + b } else { tmod(a, b) }),
   is_int(a) && b == -1 && a > 0 ==> tdiv(a, b) == -a
{
  let m = if a >= 0 { a } else { -a }; let n = if b > 0 { b } else { -b };
  lemma_div_range(m, n); lemma_tdiv_mag(m, n);
  if b > 0 { lemma_mod_neg(m, n); let q = m / n; assert(b * (-q) == -(b * q)) by (nonlinear_arith); }
  lemma_tdiv_facts(a, b);
}
