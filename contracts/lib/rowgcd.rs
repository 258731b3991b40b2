// greatest common divisor / least common multiple of a row, by their defining properties
pub open spec fn is_row_gcd(g: int, s: Seq<int>) -> bool {
  g >= 0 && (forall|i: int| 0 <= i < s.len() ==> divides(g, #[trigger] s[i])) && (forall|d: int| (forall|i: int| 0 <= i < s.len() ==> divides(d, #[trigger] s[i])) ==> #[trigger] divides(d, g))
}
pub open spec fn row_gcd(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { gcd_spec(s[s.len() - 1], row_gcd(s.drop_last())) } }
pub proof fn lemma_row_gcd(s: Seq<int>)
  ensures is_row_gcd(row_gcd(s), s), row_gcd(s) >= 0, row_gcd(s) == 0 <==> all_zero(s), row_gcd(s) > 0 <==> !all_zero(s)
  decreases s.len()
{
  if s.len() == 0 { assert forall|d: int| #[trigger] divides(d, 0) by { assert(d * 0 == 0); } }
  else {
    let t = s.drop_last(); let n = s.len() - 1;
    lemma_row_gcd(t); lemma_gcd(s[n], row_gcd(t));
    let g = row_gcd(s);
    assert forall|i: int| 0 <= i < s.len() implies divides(g, #[trigger] s[i]) by {
      if i < n { assert(s[i] == t[i]); lemma_divides_trans(g, row_gcd(t), t[i]); }
    }
    assert forall|d: int| (forall|i: int| 0 <= i < s.len() ==> divides(d, #[trigger] s[i])) implies #[trigger] divides(d, g) by {
      assert forall|i: int| 0 <= i < t.len() implies divides(d, #[trigger] t[i]) by { assert(t[i] == s[i]); }
      assert(divides(d, s[n]));
    }
    if g == 0 { assert(s[n] == 0 && row_gcd(t) == 0); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == 0 by { if i < n { assert(s[i] == t[i]); } } }
    if all_zero(s) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == 0 by { assert(t[i] == s[i]); } assert(s[n] == 0); }
  }
}
pub proof fn lemma_divides_trans(a: int, b: int, c: int) requires divides(a, b), divides(b, c) ensures divides(a, c)
{
  let p = choose|q: int| #[trigger] (a * q) == b; let r = choose|q: int| #[trigger] (b * q) == c;
  assert(a * (p * r) == c) by (nonlinear_arith) requires a * p == b, b * r == c;
}
// a prefix of zeros does not contribute; a gcd of one is final
pub proof fn lemma_row_gcd_zero_prefix(s: Seq<int>) requires all_zero(s) ensures row_gcd(s) == 0 { lemma_row_gcd(s); }
pub proof fn lemma_gcd_absorb(a: int, b: int) ensures gcd_spec(a, 0) == zabs(a), gcd_spec(a, b) == gcd_spec(b, a), gcd_spec(a, 1) == 1, gcd_spec(0, b) == zabs(b)
{
  lemma_gcd(a, b); lemma_gcd(a, 1); lemma_gcd(0, b);
  let g = gcd_spec(a, 1);
  assert(divides(g, 1)); let q = choose|q: int| #[trigger] (g * q) == 1;
  assert(g == 1) by (nonlinear_arith) requires g * q == 1, g > 0;
}
pub proof fn lemma_row_gcd_one(s: Seq<int>, i: int) requires 0 <= i <= s.len(), row_gcd(s.take(i)) == 1 ensures row_gcd(s) == 1 decreases s.len() - i
{
  if i == s.len() { assert(s.take(i) =~= s); }
  else { assert(s.take(i + 1).drop_last() =~= s.take(i)); lemma_gcd_absorb(s[i], 1); lemma_row_gcd_one(s, i + 1); }
}
pub open spec fn row_lcm(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 1 } else { lcm_spec(s[s.len() - 1], row_lcm(s.drop_last())) } }
pub open spec fn no_zero(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 }
pub proof fn lemma_bezout(a: int, b: int) -> (r: (int, int)) requires a >= 0, b >= 0 ensures a * r.0 + b * r.1 == gcdn(a, b) decreases b
{
  if b == 0 { assert(a * 1 + b * 0 == a); (1, 0) }
  else {
    lemma_mod_bound(a, b); lemma_fundamental_div_mod(a, b);
    let r = lemma_bezout(b, a % b);
    let x = r.1; let y = r.0 - (a / b) * r.1;
    assert(a * x + b * y == gcdn(a, b)) by (nonlinear_arith) requires b * r.0 + (a % b) * r.1 == gcdn(a, b), a == b * (a / b) + a % b, x == r.1, y == r.0 - (a / b) * r.1;
    (x, y)
  }
}
pub proof fn lemma_lcm_least(a: int, b: int, m: int) requires a != 0, b != 0, divides(a, m), divides(b, m) ensures divides(lcm_spec(a, b), m)
{
  lemma_lcm(a, b); lemma_gcd(a, b);
  let x = zabs(a); let y = zabs(b); let g = gcd_spec(a, b); let l = lcm_spec(a, b);
  let bz = lemma_bezout(x, y);
  let p0 = choose|q: int| #[trigger] (a * q) == m; let q0 = choose|q: int| #[trigger] (b * q) == m;
  let p = if a > 0 { p0 } else { -p0 }; let q = if b > 0 { q0 } else { -q0 };
  assert(x * p == m) by (nonlinear_arith) requires a * p0 == m, x == zabs(a), p == (if a > 0 { p0 } else { -p0 });
  assert(y * q == m) by (nonlinear_arith) requires b * q0 == m, y == zabs(b), q == (if b > 0 { q0 } else { -q0 });
  assert(l * g == x * y) by (nonlinear_arith) requires zabs(a * b) == l * g, x == zabs(a), y == zabs(b);
  let k = q * bz.0 + p * bz.1;
  let s = bz.0; let t = bz.1;
  assert(m * g == m * (x * s) + m * (y * t)) by (nonlinear_arith) requires x * s + y * t == g;
  assert(m * (x * s) == (x * y) * (q * s)) by (nonlinear_arith) requires y * q == m;
  assert(m * (y * t) == (x * y) * (p * t)) by (nonlinear_arith) requires x * p == m;
  assert((x * y) * (q * s) + (x * y) * (p * t) == (x * y) * k) by (nonlinear_arith) requires k == q * s + p * t;
  assert((l * g) * k == l * k * g) by (nonlinear_arith);
  assert(m == l * k) by (nonlinear_arith) requires m * g == (l * k) * g, g > 0;
}
pub proof fn lemma_row_lcm(s: Seq<int>) requires no_zero(s)
  ensures row_lcm(s) > 0, forall|i: int| 0 <= i < s.len() ==> divides(#[trigger] s[i], row_lcm(s)),
    forall|m: int| (forall|i: int| 0 <= i < s.len() ==> divides(#[trigger] s[i], m)) ==> #[trigger] divides(row_lcm(s), m)
  decreases s.len()
{
  if s.len() == 0 { assert forall|m: int| #[trigger] divides(1, m) by { assert(1 * m == m); } }
  else {
    let t = s.drop_last(); let n = s.len() - 1; let l = row_lcm(s);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 0 by { assert(s[i] != 0); }
    lemma_row_lcm(t); assert(s[n] != 0); lemma_lcm(s[n], row_lcm(t)); lemma_gcd(s[n], row_lcm(t));
    assert(l > 0) by { let pr = s[n] * row_lcm(t); assert(pr != 0) by (nonlinear_arith) requires pr == s[n] * row_lcm(t), s[n] != 0, row_lcm(t) != 0; assert(l != 0) by (nonlinear_arith) requires zabs(pr) == l * gcd_spec(s[n], row_lcm(t)), pr != 0; }
    assert forall|i: int| 0 <= i < s.len() implies divides(#[trigger] s[i], l) by { if i < n { assert(s[i] == t[i]); lemma_divides_trans(t[i], row_lcm(t), l); } }
    assert forall|m: int| (forall|i: int| 0 <= i < s.len() ==> divides(#[trigger] s[i], m)) implies #[trigger] divides(l, m) by {
      assert forall|i: int| 0 <= i < t.len() implies divides(#[trigger] t[i], m) by { assert(t[i] == s[i]); }
      assert(divides(s[n], m)); lemma_lcm_least(s[n], row_lcm(t), m);
    }
  }
}
pub proof fn lemma_lcm_one(a: int) ensures lcm_spec(a, 1) == zabs(a)
{ lemma_gcd_absorb(a, 1); if a != 0 { lemma_lcm(a, 1); lemma_div_basics(1); assert(zabs(a) * 1 == zabs(a)); assert(1int / 1 == 1); } }
