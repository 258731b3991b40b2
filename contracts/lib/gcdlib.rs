pub open spec fn divides(d: int, a: int) -> bool { exists|q: int| #[trigger] (d * q) == a }
// Euclid's algorithm on non-negative integers
pub open spec fn gcdn(a: int, b: int) -> int decreases zabs(b) when a >= 0 && b >= 0 { if b == 0 { a } else { gcdn(b, a % b) } }
pub open spec fn gcd_spec(a: int, b: int) -> int { gcdn(zabs(a), zabs(b)) }
pub open spec fn lcm_spec(a: int, b: int) -> int { if a == 0 || b == 0 { 0 } else { zabs(a) * (zabs(b) / gcd_spec(a, b)) } }
pub proof fn lemma_gcdn_range(a: int, b: int) requires a >= 0, b >= 0
  ensures gcdn(a, b) >= 0, (a > 0 || b > 0) ==> gcdn(a, b) > 0, (a == 0 && b == 0) ==> gcdn(a, b) == 0
  decreases b
{ if b != 0 { lemma_mod_bound(a, b); lemma_gcdn_range(b, a % b); } }
pub proof fn lemma_gcdn_sym(a: int, b: int) requires a >= 0, b >= 0 ensures gcdn(a, b) == gcdn(b, a)
{
  if a < b { lemma_small_mod(a as nat, b as nat); if b != 0 { assert(gcdn(a, b) == gcdn(b, a)); } }
  else if b < a { lemma_small_mod(b as nat, a as nat); assert(gcdn(b, a) == gcdn(a, b % a)); }
}
pub proof fn lemma_gcdn_step(a: int, b: int) requires a >= 0, b > 0 ensures gcdn(a % b, b) == gcdn(a, b), a % b >= 0, a % b < b
{ lemma_mod_bound(a, b); lemma_gcdn_sym(a % b, b); }
pub proof fn lemma_divides_comb(d: int, a: int, b: int, x: int, y: int) requires divides(d, a), divides(d, b) ensures divides(d, a * x + b * y)
{
  let p = choose|q: int| #[trigger] (d * q) == a; let r = choose|q: int| #[trigger] (d * q) == b;
  assert(d * (p * x + r * y) == a * x + b * y) by (nonlinear_arith) requires d * p == a, d * r == b;
}
// gcdn(a, b) divides both arguments, and every common divisor divides it
pub proof fn lemma_gcdn_divides(a: int, b: int) requires a >= 0, b >= 0 ensures divides(gcdn(a, b), a), divides(gcdn(a, b), b) decreases b
{
  if b == 0 { assert(a * 1 == a); assert(a * 0 == 0); }
  else {
    lemma_mod_bound(a, b); lemma_gcdn_divides(b, a % b);
    lemma_fundamental_div_mod(a, b);
    lemma_divides_comb(gcdn(a, b), b, a % b, a / b, 1);
    assert(b * (a / b) + (a % b) * 1 == a);
  }
}
pub proof fn lemma_gcdn_greatest(a: int, b: int, d: int) requires a >= 0, b >= 0, divides(d, a), divides(d, b) ensures divides(d, gcdn(a, b)) decreases b
{
  if b != 0 {
    lemma_mod_bound(a, b); lemma_fundamental_div_mod(a, b);
    lemma_divides_comb(d, a, b, 1, -(a / b));
    assert(a * 1 + b * (-(a / b)) == a % b) by (nonlinear_arith) requires a == b * (a / b) + a % b;
    lemma_gcdn_greatest(b, a % b, d);
  }
}
pub proof fn lemma_divides_neg(d: int, a: int) ensures divides(d, a) == divides(d, -a)
{
  if divides(d, a) { let q = choose|q: int| #[trigger] (d * q) == a; assert(d * (-q) == -a) by (nonlinear_arith) requires d * q == a; }
  if divides(d, -a) { let q = choose|q: int| #[trigger] (d * q) == -a; assert(d * (-q) == a) by (nonlinear_arith) requires d * q == -a; }
}
pub proof fn lemma_divides_div(d: int, a: int) requires d > 0, divides(d, a) ensures d * (a / d) == a, a % d == 0, tdiv(a, d) * d == a, d * tdiv(a, d) == a
{
  let q = choose|q: int| #[trigger] (d * q) == a;
  lemma_div_multiples_vanish(q, d); assert(d * q == q * d) by (nonlinear_arith);
  assert(a / d == q); lemma_fundamental_div_mod(a, d);
  if a < 0 {
    assert((-a) == (-q) * d) by (nonlinear_arith) requires d * q == a; lemma_div_multiples_vanish(-q, d);
    assert(d * (-q) == (-q) * d) by (nonlinear_arith);
  }
  assert(tdiv(a, d) == q);
}
// the two facts users of gcd rely on
pub proof fn lemma_gcd(a: int, b: int)
  ensures gcd_spec(a, b) >= 0, (a != 0 || b != 0) ==> gcd_spec(a, b) > 0, gcd_spec(0, 0) == 0,
    divides(gcd_spec(a, b), a), divides(gcd_spec(a, b), b), gcd_spec(a, b) == gcd_spec(b, a),
    forall|d: int| divides(d, a) && divides(d, b) ==> #[trigger] divides(d, gcd_spec(a, b)),
{
  let x = zabs(a); let y = zabs(b);
  lemma_gcdn_range(x, y); lemma_gcdn_divides(x, y); lemma_gcdn_sym(x, y);
  lemma_divides_neg(gcd_spec(a, b), a); lemma_divides_neg(gcd_spec(a, b), b);
  assert forall|d: int| divides(d, a) && divides(d, b) implies #[trigger] divides(d, gcd_spec(a, b)) by {
    lemma_divides_neg(d, a); lemma_divides_neg(d, b); lemma_gcdn_greatest(x, y, d);
  }
}
pub proof fn lemma_lcm(a: int, b: int) requires a != 0 || b != 0
  ensures zabs(a * b) == lcm_spec(a, b) * gcd_spec(a, b), divides(a, lcm_spec(a, b)), divides(b, lcm_spec(a, b)), lcm_spec(a, b) >= 0,
    zabs(a) * (zabs(b) / gcd_spec(a, b)) == lcm_spec(a, b), tdiv(zabs(b), gcd_spec(a, b)) == zabs(b) / gcd_spec(a, b)
{
  let g = gcd_spec(a, b); let x = zabs(a); let y = zabs(b);
  lemma_gcd(a, b); lemma_divides_neg(g, b); lemma_divides_neg(g, a);
  lemma_divides_div(g, y); lemma_divides_div(g, x);
  let m = y / g; let n = x / g;
  if b == 0 { assert(x * 0 == 0) by (nonlinear_arith); lemma_div_basics(g); assert(y / g == 0); }
  if a == 0 { assert(0 * (y / g) == 0) by (nonlinear_arith); }
  assert(lcm_spec(a, b) == x * m);
  assert(x * m * g == x * y) by (nonlinear_arith) requires m * g == y || g * m == y;
  assert(x * y == zabs(a * b)) by (nonlinear_arith) requires x == zabs(a), y == zabs(b);
  assert(y == y * 1);
  assert(x * m == n * y) by (nonlinear_arith) requires g * n == x, g * m == y;
  assert(x * m >= 0) by (nonlinear_arith) requires x >= 0, m >= 0;
  if a > 0 { assert(a * m == lcm_spec(a, b)); } else { assert(a * (-m) == lcm_spec(a, b)) by (nonlinear_arith) requires x == -a, lcm_spec(a, b) == x * m; }
  if b > 0 { assert(b * n == lcm_spec(a, b)) by (nonlinear_arith) requires lcm_spec(a, b) == n * y, y == b; } else { assert(b * (-n) == lcm_spec(a, b)) by (nonlinear_arith) requires y == -b, lcm_spec(a, b) == n * y; }
}
