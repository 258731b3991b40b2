// the rank is unique: more vectors than dimensions are dependent
pub proof fn lemma_dot_insert_at(a: Seq<int>, k: int, t: int, b: Seq<int>) requires 0 <= k <= a.len(), b.len() == a.len() + 1 ensures dot(a.insert(k, t), b) == dot(a, b.remove(k)) + t * b[k] decreases a.len()
{
  let c = a.insert(k, t); let n = a.len() as int;
  if k == n { assert(c.drop_last() =~= a); lemma_dot_cut(a, b, b.remove(k)); }
  else { assert(c.drop_last() =~= a.drop_last().insert(k, t)); lemma_dot_insert_at(a.drop_last(), k, t, b.drop_last()); lemma_dot_prefix(c, b); assert(b.remove(k).drop_last() =~= b.drop_last().remove(k)); lemma_dot_prefix(a, b.remove(k));
    assert(c[n] == a[n - 1]); assert(b.remove(k)[n - 1] == b[n]); }
}
pub proof fn lemma_kernel(c: Seq<Seq<int>>, m: int) -> (y: Seq<int>)
  requires 0 <= m < c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len() >= m
  ensures y.len() == c.len(), !all_zero(y), kills(y, c, m)
  decreases m
{
  if m == 0 { let y = Seq::new(c.len(), |i: int| 1int); assert(y[0] == 1); y }
  else {
    let l = m - 1; let v = colv(c, l);
    if all_zero(v) {
      let y = lemma_kernel(c, l);
      assert forall|j: int| 0 <= j < m implies dot(y, #[trigger] colv(c, j)) == 0 by { if j == l { lemma_dot_zeroed(y, v); } }
      y
    } else {
      let p = choose|p: int| 0 <= p < v.len() && #[trigger] v[p] != 0; let q = v[p]; let r = c.remove(p); let u = colv(r, l);
      let c2 = Seq::new(r.len(), |i: int| Seq::new(m as nat, |j: int| q * r[i][j] - r[i][l] * c[p][j]));
      let y2 = lemma_kernel(c2, l); let t = -dot(y2, u); let z = vscale(y2, q); let y = z.insert(p, t);
      assert forall|j: int| 0 <= j < m implies dot(y, #[trigger] colv(c, j)) == 0 by {
        let w = colv(c, j); let x = c[p][j]; lemma_dot_insert_at(z, p, t, w); assert(w.remove(p) =~= colv(r, j)); assert(w[p] == x); lemma_dot_scale(y2, q, colv(r, j));
        let d = dot(y2, colv(r, j)); let e = dot(y2, u);
        if j == l { assert(d == e && x == q); assert(d * q + (-e) * q == 0) by (nonlinear_arith) requires d == e; }
        else {
          assert forall|k: int| 0 <= k < y2.len() implies 1 * #[trigger] colv(c2, j)[k] == q * colv(r, j)[k] + (-x) * u[k] by { assert(colv(c2, j)[k] == q * r[k][j] - r[k][l] * x); let g = r[k][l]; assert(g * x == x * g) by (nonlinear_arith); assert((-x) * g == -(x * g)) by (nonlinear_arith); }
          lemma_dot_comb2(y2, colv(r, j), u, colv(c2, j), 1, q, -x); assert(dot(y2, colv(c2, j)) == 0);
          assert(d * q + (-e) * x == q * d + (-x) * e) by (nonlinear_arith);
        }
      }
      let i = choose|i: int| 0 <= i < y2.len() && #[trigger] y2[i] != 0; lemma_mul_ne(q, y2[i]); assert(y2[i] * q == q * y2[i]) by (nonlinear_arith); assert(z[i] != 0);
      if i < p { assert(y[i] == z[i]); } else { assert(y[i + 1] == z[i]); }
      y
    }
  }
}
pub proof fn lemma_dot_terms(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>) requires b.len() >= a.len(), c.len() == a.len(), d.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> a[i] * #[trigger] b[i] == c[i] * d[i] ensures dot(a, b) == dot(c, d) decreases a.len()
{ if a.len() > 0 { let n = a.len() - 1; assert forall|i: int| 0 <= i < n implies a.drop_last()[i] * #[trigger] b[i] == c.drop_last()[i] * d[i] by { assert(a[i] * b[i] == c[i] * d[i]); } lemma_dot_terms(a.drop_last(), b, c.drop_last(), d); assert(a[n] * b[n] == c[n] * d[n]); } }
pub open spec fn spans(b: Seq<Seq<int>>, a: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < a.len() ==> insp(b, #[trigger] a[i]) }
pub proof fn lemma_insp_through(b: Seq<Seq<int>>, a: Seq<Seq<int>>, w: Seq<int>, n: nat) requires rect(a, n), w.len() == n, insp(a, w), spans(b, a) ensures insp(b, w) decreases a.len()
{
  let (d, f) = choose|d: int, f: Seq<int>| #[trigger] combines(a, w, d, f);
  if a.len() == 0 {
    assert(all_zero(w)) by { assert forall|j: int| 0 <= j < w.len() implies #[trigger] w[j] == 0 by { assert(d * w[j] == dot(f, colv(a, j))); assert(f =~= Seq::<int>::empty()); lemma_mul_zero(d, w[j]); } }
    lemma_insp_zero(b, w);
  } else {
    // d w = sum over the others + f[m] a[m]
    let m = a.len() - 1; let a1 = a.drop_last(); let f1 = f.drop_last(); let u = Seq::new(n, |j: int| dot(f1, colv(a1, j)));
    assert(rect(a1, n)) by { assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).len() == n by { assert(a[i].len() == n); } }
    assert(spans(b, a1)) by { assert forall|i: int| 0 <= i < a1.len() implies insp(b, #[trigger] a1[i]) by { assert(insp(b, a[i])); } }
    assert(combines(a1, u, 1, f1)); lemma_insp_through(b, a1, u, n); assert(insp(b, a[m])); assert(a[m].len() == n);
    assert forall|j: int| 0 <= j < w.len() implies d * #[trigger] w[j] == 1 * u[j] + f[m] * a[m][j] by { assert(d * w[j] == dot(f, colv(a, j))); lemma_dot_cut(f1, colv(a, j), colv(a1, j)); }
    lemma_insp_comb(b, u, a[m], w, 1, f[m], d);
  }
}
pub proof fn lemma_indep_bound(b: Seq<Seq<int>>, e: Seq<Seq<int>>, n: nat) requires rect(b, n), indep(b, n as int), spans(e, b), rect(e, n) ensures b.len() <= e.len()
{
  if b.len() > e.len() {
    let df = |i: int| choose|x: (int, Seq<int>)| #[trigger] combines(e, b[i], x.0, x.1);
    let c = Seq::new(b.len(), |i: int| df(i).1);
    assert forall|i: int| 0 <= i < b.len() implies combines(e, b[i], df(i).0, #[trigger] c[i]) by { assert(insp(e, b[i])); let (d, f) = choose|d: int, f: Seq<int>| #[trigger] combines(e, b[i], d, f); assert(combines(e, b[i], (d, f).0, (d, f).1)); }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() == e.len() by { assert(combines(e, b[i], df(i).0, c[i])); }
    let y = lemma_kernel(c, e.len() as int); let cs = Seq::new(b.len(), |i: int| y[i] * df(i).0); let v = Seq::new(e.len(), |j: int| 0int);
    assert forall|j: int| 0 <= j < n implies dot(cs, #[trigger] colv(b, j)) == 0 by {
      let x = colv(e, j);
      assert forall|k: int| 0 <= k < e.len() implies #[trigger] v[k] == dot(y, colv(c, k)) by {}
      lemma_dot_swap(y, c, x, v, e.len()); lemma_dot_zero(v, x);
      let s = Seq::new(c.len(), |k: int| dot(c[k], x)); assert(dot(y, s) == 0);
      assert forall|i: int| 0 <= i < cs.len() implies cs[i] * #[trigger] colv(b, j)[i] == y[i] * s[i] by { assert(combines(e, b[i], df(i).0, c[i])); assert(b[i].len() == n); assert(df(i).0 * b[i][j] == dot(c[i], x)); let g = y[i]; let h = df(i).0; let w = b[i][j]; assert((g * h) * w == g * (h * w)) by (nonlinear_arith); }
      lemma_dot_terms(cs, colv(b, j), y, s);
    }
    assert(kills(cs, b, n as int)); assert(all_zero(cs));
    let i = choose|i: int| 0 <= i < y.len() && #[trigger] y[i] != 0; assert(combines(e, b[i], df(i).0, c[i])); lemma_mul_ne(y[i], df(i).0); assert(cs[i] != 0);
  }
}
pub proof fn lemma_rank_unique(j: int, k: int, a: Seq<Seq<int>>, n: nat) requires is_rank(j, a, n), is_rank(k, a, n), rect(a, n) ensures j == k
{
  let b = choose|b: Seq<Seq<int>>| b.len() == j && #[trigger] is_basis(b, a, n); let e = choose|b: Seq<Seq<int>>| b.len() == k && #[trigger] is_basis(b, a, n);
  assert(spans(e, b)) by { assert forall|i: int| 0 <= i < b.len() implies insp(e, #[trigger] b[i]) by { assert(b[i].len() == n); lemma_insp_through(e, a, b[i], n); } }
  assert(spans(b, e)) by { assert forall|i: int| 0 <= i < e.len() implies insp(b, #[trigger] e[i]) by { assert(e[i].len() == n); lemma_insp_through(b, a, e[i], n); } }
  lemma_indep_bound(b, e, n); lemma_indep_bound(e, b, n);
}
pub open spec fn rank(a: Seq<Seq<int>>, n: nat) -> int { choose|k: int| is_rank(k, a, n) }
pub proof fn lemma_rank(k: int, a: Seq<Seq<int>>, n: nat) requires is_rank(k, a, n), rect(a, n) ensures rank(a, n) == k { lemma_rank_unique(k, rank(a, n), a, n); }
