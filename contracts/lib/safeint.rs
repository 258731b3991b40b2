pub open spec fn rep(x: int) -> bool { i64::MIN <= x <= i64::MAX }
// least non-negative remainder
pub open spec fn emod(a: int, m: int) -> int { a % m }
// a <= m / b exactly when the product stays below m (all positive)
pub proof fn lemma_quot(m: int, a: int, b: int) requires m >= 0, a >= 0, b > 0 ensures (a <= m / b) == (a * b <= m), m / b <= m, m / b >= 0
{
  lemma_fundamental_div_mod(m, b); lemma_mod_bound(m, b);
  if a <= m / b { assert(a * b <= b * (m / b)) by (nonlinear_arith) requires a <= m / b, b > 0; }
  else { assert(a * b >= b * (m / b) + b) by (nonlinear_arith) requires a >= m / b + 1, b > 0; }
  assert(m / b >= 0) by (nonlinear_arith) requires m >= 0, b > 0;
  assert(m / b <= m) by (nonlinear_arith) requires m >= 0, b > 0;
}
pub proof fn lemma_arith(a: int, b: int)
  requires rep(a), rep(b)
  ensures a == 0 ==> a * b == 0, b == 0 ==> a * b == 0, b == -1 ==> a * b == -a && tdiv(a, b) == -a && tmod(a, b) == 0,
    b == 1 ==> tdiv(a, b) == a && tmod(a, b) == 0 && a * b == a,
    b != 0 && b != -1 ==> rep(tdiv(a, b)),
    b != 0 && b != -1 ==> rep(tdiv(i64::MAX as int, b)) && rep(tdiv(i64::MIN as int, b)),
    b != 0 && a != 0 && (a > 0) == (b > 0) ==> a * b > 0 && (a > 0 ==> (a * b > i64::MAX) == (tdiv(i64::MAX as int, b) < a)) && (a < 0 ==> (a * b > i64::MAX) == (tdiv(i64::MAX as int, b) > a)),
    b != 0 && a != 0 && (a > 0) != (b > 0) ==> a * b < 0 && (a > 0 ==> (a * b < i64::MIN) == (tdiv(i64::MIN as int, b) < a)) && (a < 0 ==> (a * b < i64::MIN) == (tdiv(i64::MIN as int, b) > a)),
    b > 0 ==> -b < tmod(a, b) < b && emod(a, b) == (if tmod(a, b) < 0 { tmod(a, b) + b } else { tmod(a, b) }),
    b != 0 ==> rep(tmod(a, b)),
{
  let mx = i64::MAX as int; let mn = -(i64::MIN as int);
  let m = zabs(a); let n = zabs(b);
  assert(a == 0 || b == 0 ==> a * b == 0) by (nonlinear_arith);
  assert(b == -1 ==> a * b == -a) by (nonlinear_arith);
  assert(b == 1 ==> a * b == a) by (nonlinear_arith);
  if b != 0 {
    lemma_quot(mx, m, n); lemma_quot(mn, m, n); lemma_quot(m, 0, n);
    if n == 1 { lemma_div_basics(m); lemma_div_basics(mx); lemma_div_basics(mn); }
    assert(a * b == m * n || a * b == -(m * n)) by (nonlinear_arith) requires m == a || m == -a, n == b || n == -b;
    if a != 0 { assert(m * n > 0) by (nonlinear_arith) requires m > 0, n > 0;
      assert((a > 0) == (b > 0) ==> a * b > 0) by (nonlinear_arith) requires a != 0, b != 0;
      assert((a > 0) != (b > 0) ==> a * b < 0) by (nonlinear_arith) requires a != 0, b != 0; }
    if n >= 2 { assert(mn / n <= mn / 2) by (nonlinear_arith) requires mn >= 0, n >= 2; }
    lemma_fundamental_div_mod(m, n); lemma_mod_bound(m, n);
    assert(b * tdiv(a, b) == (if a >= 0 { n * (m / n) } else { -(n * (m / n)) })) by (nonlinear_arith) requires b == n || b == -n, tdiv(a, b) == (if (a >= 0) == (b > 0) { m / n } else { -(m / n) }), n == zabs(b);
    if b > 0 {
      let r = tmod(a, b); let q = tdiv(a, b);
      assert(a == b * q + r);
      if r < 0 { assert(a == (q - 1) * b + (r + b)) by (nonlinear_arith) requires a == b * q + r; lemma_fundamental_div_mod_converse(a, b, q - 1, r + b); }
      else { assert(a == q * b + r) by (nonlinear_arith) requires a == b * q + r; lemma_fundamental_div_mod_converse(a, b, q, r); }
    }
  }
}
