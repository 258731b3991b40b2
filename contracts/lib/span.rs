// column c of a matrix, linear span over the rationals, independence, bases
pub open spec fn colv(m: Seq<Seq<int>>, c: int) -> Seq<int> { Seq::new(m.len(), |i: int| m[i][c]) }
// some non-zero multiple of w is an integer combination of the rows of b
pub open spec fn combines(b: Seq<Seq<int>>, w: Seq<int>, d: int, f: Seq<int>) -> bool { d != 0 && f.len() == b.len() && forall|j: int| 0 <= j < w.len() ==> d * #[trigger] w[j] == dot(f, colv(b, j)) }
pub open spec fn insp(b: Seq<Seq<int>>, w: Seq<int>) -> bool { exists|d: int, f: Seq<int>| #[trigger] combines(b, w, d, f) }
pub open spec fn kills(cs: Seq<int>, b: Seq<Seq<int>>, n: int) -> bool { forall|j: int| 0 <= j < n ==> dot(cs, #[trigger] colv(b, j)) == 0 }
pub open spec fn indep(b: Seq<Seq<int>>, n: int) -> bool { forall|cs: Seq<int>| cs.len() == b.len() && #[trigger] kills(cs, b, n) ==> all_zero(cs) }
// b is a basis of the row space of a
pub open spec fn is_basis(b: Seq<Seq<int>>, a: Seq<Seq<int>>, n: nat) -> bool {
  rect(b, n) && indep(b, n as int) && (forall|i: int| 0 <= i < a.len() ==> insp(b, #[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> insp(a, #[trigger] b[i]))
}
pub open spec fn is_rank(k: int, a: Seq<Seq<int>>, n: nat) -> bool { exists|b: Seq<Seq<int>>| b.len() == k && #[trigger] is_basis(b, a, n) }

pub proof fn lemma_dot_comb2(y: Seq<int>, u: Seq<int>, v: Seq<int>, w: Seq<int>, g: int, p: int, q: int)
  requires u.len() >= y.len(), v.len() >= y.len(), w.len() >= y.len(), forall|k: int| 0 <= k < y.len() ==> g * #[trigger] w[k] == p * u[k] + q * v[k]
  ensures g * dot(y, w) == p * dot(y, u) + q * dot(y, v)
  decreases y.len()
{
  if y.len() > 0 {
    let n = y.len() - 1;
    lemma_dot_comb2(y.drop_last(), u, v, w, g, p, q);
    assert(g * w[n] == p * u[n] + q * v[n]);
    let a = dot(y.drop_last(), w); let b = dot(y.drop_last(), u); let c = dot(y.drop_last(), v); let z = y[n];
    let wn = w[n]; let un = u[n]; let vn = v[n];
    assert(z * (g * wn) == z * (p * un + q * vn));
    assert(g * (z * wn) == z * (g * wn)) by (nonlinear_arith); assert(z * (p * un + q * vn) == p * (z * un) + q * (z * vn)) by (nonlinear_arith);
    assert(g * (a + z * wn) == g * a + g * (z * wn)) by (nonlinear_arith);
    assert(p * (b + z * un) == p * b + p * (z * un)) by (nonlinear_arith); assert(q * (c + z * vn) == q * c + q * (z * vn)) by (nonlinear_arith);
  } else { assert(g * 0 == 0 && p * 0 == 0 && q * 0 == 0) by (nonlinear_arith); }
}
// all entries but one meet a zero
pub proof fn lemma_dot_single(a: Seq<int>, b: Seq<int>, k: int)
  requires b.len() >= a.len(), 0 <= k < a.len(), forall|i: int| 0 <= i < a.len() && i != k ==> #[trigger] b[i] == 0 || a[i] == 0
  ensures dot(a, b) == a[k] * b[k]
  decreases a.len()
{
  let n = a.len() - 1;
  assert(0 * a[n] == 0 && a[n] * 0 == 0 && 0 * b[n] == 0) by (nonlinear_arith);
  if k == n { lemma_dot_zeroed(a.drop_last(), b); }
  else { lemma_dot_single(a.drop_last(), b, k); assert(b[n] == 0 || a[n] == 0); assert(a[n] * b[n] == 0) by (nonlinear_arith) requires b[n] == 0 || a[n] == 0; }
}
pub proof fn lemma_dot_zeroed(a: Seq<int>, b: Seq<int>)
  requires b.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == 0 || a[i] == 0
  ensures dot(a, b) == 0
  decreases a.len()
{
  if a.len() > 0 { let n = a.len() - 1; assert(b[n] == 0 || a[n] == 0); assert(a[n] * b[n] == 0) by (nonlinear_arith) requires b[n] == 0 || a[n] == 0;
    assert forall|i: int| 0 <= i < a.drop_last().len() implies #[trigger] b[i] == 0 || a.drop_last()[i] == 0 by { assert(b[i] == 0 || a[i] == 0); }
    lemma_dot_zeroed(a.drop_last(), b); }
}
pub proof fn lemma_mul_zero(g: int, x: int) requires g != 0, g * x == 0 ensures x == 0 { assert(x == 0) by (nonlinear_arith) requires g != 0, g * x == 0; }
pub proof fn lemma_mul_cancel(g: int, x: int, y: int) requires g != 0, g * x == g * y ensures x == y { assert(x == y) by (nonlinear_arith) requires g != 0, g * x == g * y; }
pub proof fn lemma_mul_ne(g: int, x: int) requires g != 0, x != 0 ensures g * x != 0 { assert(g * x != 0) by (nonlinear_arith) requires g != 0, x != 0; }
// triangular systems are independent
pub open spec fn triangular(b: Seq<Seq<int>>, p: Seq<int>, n: int) -> bool {
  p.len() == b.len() && (forall|k: int| 0 <= k < b.len() ==> 0 <= #[trigger] p[k] < n && b[k][p[k]] != 0) && (forall|k: int, l: int| 0 <= k < l < b.len() ==> #[trigger] b[l][#[trigger] p[k]] == 0)
}
pub proof fn lemma_triangular(b: Seq<Seq<int>>, p: Seq<int>, n: int) requires triangular(b, p, n) ensures indep(b, n)
{
  assert forall|cs: Seq<int>| cs.len() == b.len() && #[trigger] kills(cs, b, n) implies all_zero(cs) by { lemma_triangular_k(b, p, n, cs, b.len() as int); }
}
pub proof fn lemma_triangular_k(b: Seq<Seq<int>>, p: Seq<int>, n: int, cs: Seq<int>, k: int)
  requires triangular(b, p, n), kills(cs, b, n), cs.len() == b.len(), 0 <= k <= b.len()
  ensures forall|i: int| 0 <= i < k ==> #[trigger] cs[i] == 0
  decreases k
{
  if k > 0 {
    lemma_triangular_k(b, p, n, cs, k - 1);
    let c = p[k - 1]; assert(b[k - 1][p[k - 1]] != 0);
    assert(dot(cs, colv(b, c)) == 0);
    assert forall|i: int| 0 <= i < cs.len() && i != k - 1 implies #[trigger] colv(b, c)[i] == 0 || cs[i] == 0 by { if i < k - 1 { assert(cs[i] == 0); } else { assert(b[i][p[k - 1]] == 0); } }
    lemma_dot_single(cs, colv(b, c), k - 1);
    assert(colv(b, c)[k - 1] * cs[k - 1] == 0) by (nonlinear_arith) requires cs[k - 1] * colv(b, c)[k - 1] == 0;
    lemma_mul_zero(colv(b, c)[k - 1], cs[k - 1]);
  }
}
// closure properties of the span
pub proof fn lemma_insp_zero(b: Seq<Seq<int>>, w: Seq<int>) requires all_zero(w) ensures insp(b, w)
{
  let f = Seq::new(b.len(), |i: int| 0int);
  assert forall|j: int| 0 <= j < w.len() implies 1 * #[trigger] w[j] == dot(f, colv(b, j)) by { lemma_dot_zero(f, colv(b, j)); }
  assert(combines(b, w, 1, f));
}
pub proof fn lemma_insp_row(b: Seq<Seq<int>>, k: int) requires 0 <= k < b.len() ensures insp(b, b[k])
{
  let f = Seq::new(b.len(), |i: int| if i == k { 1int } else { 0int }); let w = b[k];
  assert forall|j: int| 0 <= j < w.len() implies 1 * #[trigger] w[j] == dot(f, colv(b, j)) by { lemma_dot_single(f, colv(b, j), k); }
  assert(combines(b, w, 1, f));
}
pub proof fn lemma_scale_comb(d: int, e: int, x: int, y: int, z: int, u: int, v: int, w: int, df: int, dh: int) requires d * u == df, e * v == dh, z * w == x * u + y * v ensures (d * e * z) * w == df * (x * e) + dh * (y * d)
{
  assert((d * e * z) * w == (d * e) * (z * w)) by (nonlinear_arith);
  assert((d * e) * (x * u + y * v) == (d * e) * (x * u) + (d * e) * (y * v)) by (nonlinear_arith);
  assert((d * e) * (x * u) == (d * u) * (x * e)) by (nonlinear_arith);
  assert((d * e) * (y * v) == (e * v) * (y * d)) by (nonlinear_arith);
}
// z w = x u + y v
pub proof fn lemma_insp_comb(b: Seq<Seq<int>>, u: Seq<int>, v: Seq<int>, w: Seq<int>, x: int, y: int, z: int)
  requires insp(b, u), insp(b, v), u.len() == v.len(), u.len() == w.len(), z != 0, forall|j: int| 0 <= j < w.len() ==> z * #[trigger] w[j] == x * u[j] + y * v[j]
  ensures insp(b, w)
{
  let (d, f) = choose|d: int, f: Seq<int>| #[trigger] combines(b, u, d, f);
  let (e, h) = choose|d: int, f: Seq<int>| #[trigger] combines(b, v, d, f);
  let xe = x * e; let yd = y * d; let m = d * e * z;
  let k = vadd(vscale(f, xe), vscale(h, yd));
  assert(m != 0) by (nonlinear_arith) requires d != 0, e != 0, z != 0, m == d * e * z;
  assert forall|j: int| 0 <= j < w.len() implies m * #[trigger] w[j] == dot(k, colv(b, j)) by {
    let c = colv(b, j);
    lemma_dot_add(vscale(f, xe), vscale(h, yd), c); lemma_dot_scale(f, xe, c); lemma_dot_scale(h, yd, c);
    assert(d * u[j] == dot(f, c)); assert(e * v[j] == dot(h, c)); assert(z * w[j] == x * u[j] + y * v[j]);
    lemma_scale_comb(d, e, x, y, z, u[j], v[j], w[j], dot(f, c), dot(h, c));
  }
  assert(combines(b, w, m, k));
}
pub proof fn lemma_insp_push(b: Seq<Seq<int>>, r: Seq<int>, w: Seq<int>) requires insp(b, w) ensures insp(b.push(r), w)
{
  let (d, f) = choose|d: int, f: Seq<int>| #[trigger] combines(b, w, d, f);
  let h = f.push(0);
  assert forall|j: int| 0 <= j < w.len() implies d * #[trigger] w[j] == dot(h, colv(b.push(r), j)) by {
    assert(h.drop_last() =~= f); lemma_dot_cut(f, colv(b.push(r), j), colv(b, j)); assert(0 * r[j] == 0) by (nonlinear_arith);
  }
  assert(combines(b.push(r), w, d, h));
}
// the combination cs of the rows of b, multiplied with x
pub proof fn lemma_dot_swap(cs: Seq<int>, b: Seq<Seq<int>>, x: Seq<int>, v: Seq<int>, n: nat)
  requires cs.len() == b.len(), rect(b, n), x.len() >= n, v.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] v[j] == dot(cs, colv(b, j))
  ensures dot(v, x) == dot(cs, Seq::new(b.len(), |k: int| dot(b[k], x)))
  decreases cs.len()
{
  let s = Seq::new(b.len(), |k: int| dot(b[k], x));
  if cs.len() == 0 { assert(all_zero(v)) by { assert forall|j: int| 0 <= j < n implies #[trigger] v[j] == 0 by {} } lemma_dot_zero(v, x); }
  else {
    let m = cs.len() - 1; let b1 = b.drop_last(); let c1 = cs.drop_last();
    let u = Seq::new(n, |j: int| dot(c1, colv(b1, j)));
    let s1 = Seq::new(b1.len(), |k: int| dot(b1[k], x));
    assert(rect(b1, n)) by { assert forall|i: int| 0 <= i < b1.len() implies (#[trigger] b1[i]).len() == n by { assert(b[i].len() == n); } }
    lemma_dot_swap(c1, b1, x, u, n);
    assert(b[m].len() == n);
    assert forall|j: int| 0 <= j < n implies #[trigger] v[j] == vadd(u, vscale(b[m], cs[m]))[j] by {
      assert(dot(cs, colv(b, j)) == dot(c1, colv(b, j)) + cs[m] * b[m][j]); lemma_dot_cut(c1, colv(b, j), colv(b1, j));
      assert(cs[m] * b[m][j] == b[m][j] * cs[m]) by (nonlinear_arith);
    }
    assert(v =~= vadd(u, vscale(b[m], cs[m])));
    lemma_dot_add(u, vscale(b[m], cs[m]), x); lemma_dot_scale(b[m], cs[m], x);
    lemma_dot_cut(c1, s, s1);
    assert(dot(b[m], x) * cs[m] == cs[m] * s[m]) by (nonlinear_arith) requires s[m] == dot(b[m], x);
  }
}
