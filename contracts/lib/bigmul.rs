// int products that pass the range test are exact
pub proof fn lemma_fallback_mul(a: int, b: int)
  requires b != 0, b != -1, a != 0
  ensures is_int(a) && is_int(b) ==> ({
    let limit = if (a > 0) == (b > 0) { 0x7fff_ffffint } else { -0x8000_0000int };
    (if (a > 0 && tdiv(limit, b) < a) || (a < 0 && tdiv(limit, b) > a) { true } else { is_int(a * b) }) })
{
  let m = 0x7fff_ffffint; let n = 0x8000_0000int;
  if b > 0 {
    lemma_fundamental_div_mod(m, b); lemma_fundamental_div_mod(n, b); lemma_mod_bound(m, b); lemma_mod_bound(n, b);
    if a > 0 && a <= m / b { assert(a * b <= b * (m / b)) by (nonlinear_arith) requires a <= m / b, b > 0; assert(a * b >= 0) by (nonlinear_arith) requires a > 0, b > 0; }
    if a < 0 && -(n / b) <= a { assert(a * b >= -(b * (n / b))) by (nonlinear_arith) requires -(n / b) <= a, b > 0; assert(a * b <= 0) by (nonlinear_arith) requires a < 0, b > 0; }
  } else {
    let c = -b;
    lemma_fundamental_div_mod(m, c); lemma_fundamental_div_mod(n, c); lemma_mod_bound(m, c); lemma_mod_bound(n, c);
    if a > 0 && a <= n / c { assert(a * b >= -(c * (n / c))) by (nonlinear_arith) requires a <= n / c, c > 0, b == -c; assert(a * b <= 0) by (nonlinear_arith) requires a > 0, b < 0; }
    if a < 0 && -(m / c) <= a { assert(a * b <= c * (m / c)) by (nonlinear_arith) requires -(m / c) <= a, c > 0, b == -c; assert(a * b >= 0) by (nonlinear_arith) requires a < 0, b < 0; }
  }
}
pub proof fn lemma_products(a: int, b: int, ma: int, mb: int)
  ensures 0 * b == 0, a * 0 == 0, a * 1 == a, a * -1 == -a, (-a) * b == -(a * b), a * (-b) == -(a * b), (-a) * (-b) == a * b, ma * 0 == 0, 
    ma * mb == mb * ma, (-ma) * mb == -(ma * mb), ma * (-mb) == -(ma * mb), (-ma) * (-mb) == ma * mb
{
  assert((-a) * b == -(a * b)) by (nonlinear_arith); assert(a * (-b) == -(a * b)) by (nonlinear_arith); assert((-a) * (-b) == a * b) by (nonlinear_arith);
  assert((-ma) * mb == -(ma * mb)) by (nonlinear_arith); assert(ma * (-mb) == -(ma * mb)) by (nonlinear_arith); assert((-ma) * (-mb) == ma * mb) by (nonlinear_arith);
  assert(ma * mb == mb * ma) by (nonlinear_arith);
}
// the bits of e below the single bit of mask (mask 0: all bits)
pub open spec fn low(e: u64, mask: u64) -> u64 { e & sub(mask, 1) }
pub open spec fn pow2ish(mask: u64) -> bool { mask & sub(mask, 1) == 0 }
pub proof fn lemma_low0(e: u64) ensures low(e, 1) == 0, pow2ish(1), p2(0) == 1 { assert(e & sub(1u64, 1) == 0) by (bit_vector); assert(1u64 & sub(1u64, 1) == 0) by (bit_vector); }
pub proof fn lemma_low_all(e: u64, mask: u64) ensures mask == 0 ==> low(e, mask) == e { assert(e & sub(0u64, 1) == e) by (bit_vector); }
pub proof fn lemma_bit(e: u64, mask: u64)
  requires pow2ish(mask), mask != 0
  ensures pow2ish(mask << 1), low(e, mask << 1) as int == low(e, mask) + (if e & mask != 0 { mask as int } else { 0 }),
    mask < 0x8000_0000_0000_0000u64 ==> (mask << 1) as int == 2 * mask, mask >= 0x8000_0000_0000_0000u64 ==> mask == 0x8000_0000_0000_0000u64 && mask << 1 == 0
{
  assert((mask & sub(mask, 1)) == 0 && mask != 0 ==> (mask << 1) & sub(mask << 1, 1) == 0) by (bit_vector);
  assert((mask & sub(mask, 1)) == 0 && mask != 0 ==> (e & mask) == 0 || (e & mask) == mask) by (bit_vector);
  assert((mask & sub(mask, 1)) == 0 && mask != 0 ==> sub(mask << 1, 1) == sub(mask, 1) | mask) by (bit_vector);
  let m1 = sub(mask, 1);
  assert((mask & m1) == 0 ==> (e & (m1 | mask)) == add(e & m1, e & mask)) by (bit_vector);
  assert((mask & m1) == 0 ==> (e & m1) <= 0xffff_ffff_ffff_ffffu64 - (e & mask)) by (bit_vector);
  assert(mask < 0x8000_0000_0000_0000u64 ==> (mask << 1) == add(mask, mask)) by (bit_vector);
  assert((mask & sub(mask, 1)) == 0 && mask >= 0x8000_0000_0000_0000u64 ==> mask == 0x8000_0000_0000_0000u64 && mask << 1 == 0) by (bit_vector);
}
pub proof fn lemma_p2(n: int) ensures p2(n) >= 1, n >= 0 ==> p2(n + 1) == 2 * p2(n), 0 <= n < 64 ==> p2(n) <= 0x8000_0000_0000_0000, 0 <= n < 63 ==> p2(n) < 0x8000_0000_0000_0000, n == 63 ==> p2(n) == 0x8000_0000_0000_0000 decreases n
{ if n > 0 { lemma_p2(n - 1); } if 0 <= n <= 63 { lemma_p2_bound(n); } }
pub proof fn lemma_p2_bound(n: int) requires 0 <= n <= 64 ensures p2(n) * p2(64 - n) == W(), p2(64 - n) >= 1, p2(n) >= 1, n < 64 ==> p2(64 - n) >= 2, n < 64 ==> 2 * p2(n) <= W(), n < 63 ==> 4 * p2(n) <= W(), n == 63 ==> p2(n) == 0x8000_0000_0000_0000 decreases n
{
  if n == 0 { lemma_p2_64(); assert(p2(0) == 1); }
  else {
    lemma_p2_bound(n - 1);
    let a = p2(n - 1); let b = p2(64 - n);
    assert(p2(65 - n) == 2 * b); assert(p2(n) == 2 * a);
    assert(2 * a * b == a * (2 * b)) by (nonlinear_arith);
    if n == 64 { assert(p2(0) == 1); } else { if n == 63 { assert(p2(0) == 1); assert(p2(1) == 2) by { assert(p2(1) == 2 * p2(0)); } } else { assert(p2(64 - n) == 2 * p2(63 - n)); assert(p2(63 - n) == 2 * p2(62 - n)); lemma_p2pos(62 - n); }
      let c = p2(n); let d = p2(64 - n);
      assert(d >= 2); assert(2 * c <= c * d) by (nonlinear_arith) requires d >= 2, c >= 1;
      if n < 63 { assert(d >= 4); assert(4 * c <= c * d) by (nonlinear_arith) requires d >= 4, c >= 1; }
      if n == 63 { assert(p2(63) == 0x8000_0000_0000_0000) by (compute); } }
  }
}
pub proof fn lemma_p2pos(n: int) ensures p2(n) >= 1 decreases n { if n > 0 { lemma_p2pos(n - 1); } }
pub proof fn lemma_p2_64() ensures p2(64) == W() { assert(p2(64) == W()) by (compute); }
pub proof fn lemma_pos_mul(a: int, b: int) requires a > 0, b >= 0 ensures a * b >= 0, b > 0 ==> a * b > 0, a * b == 0 <==> b == 0 { assert(a * b >= 0 && (b > 0 ==> a * b > 0)) by (nonlinear_arith) requires a > 0, b >= 0; }
pub proof fn lemma_dbl(a: int, b: int) ensures a * (2 * b) == 2 * (a * b), a * (W() * b) == (a * b) * W() { assert(a * (2 * b) == 2 * (a * b)) by (nonlinear_arith); assert(a * (W() * b) == (a * b) * W()) by (nonlinear_arith); }
pub proof fn lemma_mul_step(a: int, f: int, l: int, m: int, b: int) ensures a * (f + l * b) + a * b * m == a * (f + (l + m) * b), a * (f + 0 * b) == a * f
{ assert(a * (f + l * b) + a * b * m == a * (f + (l + m) * b)) by (nonlinear_arith); assert(0 * b == 0); }
