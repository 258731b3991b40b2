// what the finished elimination says about the rows of a
pub proof fn lemma_divides_dot(g: int, a: Seq<int>, x: Seq<int>) requires x.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> divides(g, #[trigger] x[i]) ensures divides(g, dot(a, x)) decreases a.len()
{
  if a.len() == 0 { assert(g * 0 == 0) by (nonlinear_arith); }
  else { let n = a.len() - 1; lemma_divides_dot(g, a.drop_last(), x); assert(divides(g, x[n])); lemma_divides_comb(g, dot(a.drop_last(), x), x[n], 1, a[n]); assert(dot(a.drop_last(), x) * 1 + x[n] * a[n] == dot(a, x)) by (nonlinear_arith) requires dot(a, x) == dot(a.drop_last(), x) + a[n] * x[n]; }
}
// basic facts about every column of the finished elimination
pub proof fn lemma_gcols(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>)
  requires gfin(a, n, m, tr, lc)
  ensures n > 0, m.len() == a.len() + n, rect(m, n as nat), rect(a, n as nat), injective_on(m, a.len() as int, n),
    forall|c: int| 0 <= c < n ==> 0 <= #[trigger] fr(m, c) < m.len() && is_fr(m, c, fr(m, c)) && row_clear(m, fr(m, c), c, n) && m[fr(m, c)][c] > 0,
    forall|i: int, c: int| 0 <= i < a.len() && 0 <= c < n ==> #[trigger] dot(a[i], xc(m, a.len() as int, n, c)) == -m[i][c],
    forall|c: int| 0 <= c < n ==> row_gcd(#[trigger] xc(m, a.len() as int, n, c)) <= 1
{
  reveal(ginv); let t = a.len() as int;
  assert forall|c: int| 0 <= c < n implies 0 <= #[trigger] fr(m, c) < m.len() && is_fr(m, c, fr(m, c)) && row_clear(m, fr(m, c), c, n) && m[fr(m, c)][c] > 0 by { assert(columns_upto(n).contains(c)); lemma_fr(m, c, 0); }
  assert forall|i: int, c: int| 0 <= i < a.len() && 0 <= c < n implies #[trigger] dot(a[i], xc(m, t, n, c)) == -m[i][c] by { assert(m[i][c] == -dot(a[i], xc(m, t, n, c))); }
  assert forall|c: int| 0 <= c < n implies row_gcd(#[trigger] xc(m, t, n, c)) <= 1 by {
    let x = xc(m, t, n, c); let g = row_gcd(x); lemma_row_gcd(x); let v = colv(m, c); lemma_row_gcd(v);
    assert forall|i: int| 0 <= i < v.len() implies divides(g, #[trigger] v[i]) by {
      if i < t { assert(a[i].len() == n); lemma_divides_dot(g, a[i], x); assert(dot(a[i], x) == -m[i][c]); lemma_divides_neg(g, v[i]); } else { assert(x[i - t] == v[i]); assert(divides(g, x[i - t])); }
    }
    assert(divides(g, row_gcd(v))); assert(row_gcd(v) <= 1);
    let q = choose|q: int| #[trigger] (g * q) == row_gcd(v);
    if row_gcd(v) == 0 { let f = fr(m, c); assert(v[f] == 0); assert(m[f][c] > 0); }
    assert(g <= 1) by (nonlinear_arith) requires g * q == 1, g >= 0;
  }
}
// the column whose pivot row is tr[k]
pub open spec fn tcol(m: Seq<Seq<int>>, n: int, tr: Seq<u64>, k: int) -> int { choose|c: int| 0 <= c < n && #[trigger] fr(m, c) == tr[k] }
pub proof fn lemma_tcol(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX
  ensures forall|k: int| 0 <= k < tr.len() ==> 0 <= #[trigger] tcol(m, n, tr, k) < n && fr(m, tcol(m, n, tr, k)) == tr[k] && tr[k] < a.len(),
    forall|c: int, d: int| 0 <= c < n && 0 <= d < n && #[trigger] fr(m, c) == #[trigger] fr(m, d) ==> c == d,
    forall|c: int| 0 <= c < n ==> #[trigger] lc.contains(c as u64) || exists|k: int| 0 <= k < tr.len() && #[trigger] tcol(m, n, tr, k) == c,
    forall|k: int| 0 <= k < lc.len() ==> (#[trigger] lc[k]) < n && fr(m, lc[k] as int) >= a.len(),
    forall|k: int, l: int| 0 <= k < l < lc.len() ==> #[trigger] lc[k] != #[trigger] lc[l],
    forall|k: int, l: int| 0 <= k < l < tr.len() ==> #[trigger] tr[k] < #[trigger] tr[l]
{
  reveal(tinv); lemma_gcols(a, n, m, tr, lc); let t = a.len() as int;
  assert forall|c: int, d: int| 0 <= c < n && 0 <= d < n && #[trigger] fr(m, c) == #[trigger] fr(m, d) implies c == d by { if c != d { assert(m[fr(m, c)][d] == 0); assert(m[fr(m, d)][d] > 0); } }
  assert forall|k: int| 0 <= k < tr.len() implies 0 <= #[trigger] tcol(m, n, tr, k) < n && fr(m, tcol(m, n, tr, k)) == tr[k] && tr[k] < a.len() by {
    let c = choose|c: int| #[trigger] columns_upto(n).contains(c) && fr(m, c) == tr[k]; assert(0 <= c < n && fr(m, c) == tr[k]);
  }
  assert forall|c: int| 0 <= c < n implies #[trigger] lc.contains(c as u64) || exists|k: int| 0 <= k < tr.len() && #[trigger] tcol(m, n, tr, k) == c by {
    assert(columns_upto(n).contains(c));
    if fr(m, c) < t { assert(tr.contains(fr(m, c) as u64)); let k = choose|k: int| 0 <= k < tr.len() && tr[k] == fr(m, c) as u64; assert(tr[k] as int == fr(m, c)); assert(0 <= tcol(m, n, tr, k) < n); assert(fr(m, tcol(m, n, tr, k)) == fr(m, c)); assert(tcol(m, n, tr, k) == c); }
  }
  assert forall|k: int| 0 <= k < lc.len() implies (#[trigger] lc[k]) < n && fr(m, lc[k] as int) >= a.len() by { assert(columns_upto(n).contains(lc[k] as int)); }
}
// every column is either an equation or has its pivot in the rows of a
pub proof fn lemma_count(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX ensures tr.len() + lc.len() == n
{
  lemma_tcol(a, n, m, tr, lc); lemma_gcols(a, n, m, tr, lc);
  let s = Seq::new(lc.len() + tr.len(), |k: int| if k < lc.len() { lc[k] as int } else { tcol(m, n, tr, k - lc.len()) });
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
    if j < lc.len() { assert(lc[i] != lc[j]); }
    else if i < lc.len() { assert(fr(m, lc[i] as int) >= a.len()); assert(fr(m, tcol(m, n, tr, j - lc.len())) == tr[j - lc.len()]); }
    else { assert(tr[i - lc.len()] < tr[j - lc.len()]); assert(fr(m, tcol(m, n, tr, j - lc.len())) == tr[j - lc.len()]); assert(fr(m, tcol(m, n, tr, i - lc.len())) == tr[i - lc.len()]); }
  }
  assert(s.no_duplicates());
  s.unique_seq_to_set();
  assert(s.to_set() =~= set_int_range(0, n)) by {
    assert forall|c: int| s.to_set().contains(c) <==> set_int_range(0, n).contains(c) by {
      if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i < lc.len() { assert(lc[i] < n); } else { assert(0 <= tcol(m, n, tr, i - lc.len()) < n); } }
      if 0 <= c < n {
        if lc.contains(c as u64) { let i = choose|i: int| 0 <= i < lc.len() && lc[i] == c as u64; assert(s[i] == c); }
        else { let k = choose|k: int| 0 <= k < tr.len() && #[trigger] tcol(m, n, tr, k) == c; assert(s[lc.len() + k] == c); }
      }
    }
  }
  lemma_int_range(0, n);
}
pub open spec fn trows(a: Seq<Seq<int>>, tr: Seq<u64>) -> Seq<Seq<int>> { Seq::new(tr.len(), |k: int| a[tr[k] as int]) }
// subtracting multiples of the rows of b until the first k columns x are annihilated
pub open spec fn vanishes_on(b: Seq<Seq<int>>, z: Seq<int>) -> bool { forall|k: int| 0 <= k < b.len() ==> dot(#[trigger] b[k], z) == 0 }
pub proof fn lemma_reduce(b: Seq<Seq<int>>, xs: Seq<Seq<int>>, w: Seq<int>, n: int, k: int) -> (r: (int, Seq<int>, Seq<int>))
  requires n >= 0, rect(b, n as nat), rect(xs, n as nat), xs.len() == b.len(), w.len() == n, 0 <= k <= b.len(),
    forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() ==> (#[trigger] dot(b[i], xs[j]) == 0) == (i != j)
  ensures r.0 != 0, r.1.len() == b.len(), r.2.len() == n, forall|j: int| 0 <= j < n ==> #[trigger] r.2[j] == r.0 * w[j] - dot(r.1, colv(b, j)),
    forall|j: int| 0 <= j < k ==> #[trigger] dot(r.2, xs[j]) == 0,
    forall|z: Seq<int>| z.len() == n && dot(w, z) == 0 && vanishes_on(b, z) ==> #[trigger] dot(r.2, z) == 0
  decreases k
{
  if k == 0 {
    let f = Seq::new(b.len(), |i: int| 0int);
    assert forall|j: int| 0 <= j < n implies #[trigger] w[j] == 1 * w[j] - dot(f, colv(b, j)) by { lemma_dot_zero(f, colv(b, j)); }
    (1, f, w)
  } else {
    let p = lemma_reduce(b, xs, w, n, k - 1); let d0 = p.0; let f0 = p.1; let y0 = p.2;
    let l = k - 1; let d = dot(b[l], xs[l]); let e = dot(y0, xs[l]);
    assert(b[l].len() == n && xs[l].len() == n);
    assert((dot(b[l], xs[l]) == 0) == (l != l));
    let u = Seq::new(b.len(), |i: int| if i == l { e } else { 0int });
    let f = vadd(vscale(f0, d), u); let y = vsub(vscale(y0, d), vscale(b[l], e)); let dd = d0 * d;
    lemma_mul_ne(d0, d);
    assert forall|j: int| 0 <= j < n implies #[trigger] y[j] == dd * w[j] - dot(f, colv(b, j)) by {
      let c = colv(b, j); lemma_dot_add(vscale(f0, d), u, c); lemma_dot_scale(f0, d, c); lemma_dot_single(u, c, l);
      assert(y0[j] == d0 * w[j] - dot(f0, c)); let y0j = y0[j]; let wj = w[j]; let df = dot(f0, c);
      assert(y0j * d == (d0 * d) * wj - df * d) by (nonlinear_arith) requires y0j == d0 * wj - df;
      assert(b[l][j] * e == e * c[l]) by (nonlinear_arith) requires c[l] == b[l][j];
    }
    assert forall|z: Seq<int>| z.len() == n implies #[trigger] dot(y, z) == dot(y0, z) * d - dot(b[l], z) * e by { lemma_dot_sub(vscale(y0, d), vscale(b[l], e), z); lemma_dot_scale(y0, d, z); lemma_dot_scale(b[l], e, z); }
    assert forall|j: int| 0 <= j < k implies #[trigger] dot(y, xs[j]) == 0 by {
      assert(xs[j].len() == n); assert(dot(y, xs[j]) == dot(y0, xs[j]) * d - dot(b[l], xs[j]) * e);
      if j < l { assert(dot(y0, xs[j]) == 0); assert(dot(b[l], xs[j]) == 0); assert(0 * d == 0 && 0 * e == 0) by (nonlinear_arith); }
      else { assert(e * d == d * e) by (nonlinear_arith); }
    }
    assert forall|z: Seq<int>| z.len() == n && dot(w, z) == 0 && vanishes_on(b, z) implies #[trigger] dot(y, z) == 0 by {
      assert(dot(y0, z) == 0); assert(dot(b[l], z) == 0); assert(0 * d == 0 && 0 * e == 0) by (nonlinear_arith);
    }
    (dd, f, y)
  }
}
pub proof fn lemma_trows_basis(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX
  ensures is_basis(trows(a, tr), a, n as nat)
{
  lemma_tcol(a, n, m, tr, lc); lemma_gcols(a, n, m, tr, lc);
  let t = a.len() as int; let b = trows(a, tr); let xs = Seq::new(tr.len(), |k: int| xc(m, t, n, tcol(m, n, tr, k)));
  assert(rect(b, n as nat)) by { assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).len() == n by { assert(0 <= tcol(m, n, tr, k)); assert(a[tr[k] as int].len() == n); } }
  assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() implies (#[trigger] dot(b[i], xs[j]) == 0) == (i != j) by {
    let c = tcol(m, n, tr, j); let r = tr[i] as int; let ci = tcol(m, n, tr, i); assert(0 <= c < n && 0 <= ci < n);
    assert(dot(a[r], xc(m, t, n, c)) == -m[r][c]);
    if i != j { assert(tr[i] != tr[j]) by { if i < j { assert(tr[i] < tr[j]); } else { assert(tr[j] < tr[i]); } } assert(c != ci); assert(row_clear(m, fr(m, ci), ci, n)); assert(m[r][c] == 0); } else { assert(m[fr(m, c)][c] > 0); }
  }
  assert(indep(b, n)) by {
    assert forall|cs: Seq<int>| cs.len() == b.len() && #[trigger] kills(cs, b, n) implies all_zero(cs) by {
      let v = Seq::new(n as nat, |j: int| dot(cs, colv(b, j)));
      assert(all_zero(v)) by { assert forall|j: int| 0 <= j < n implies #[trigger] v[j] == 0 by { assert(dot(cs, colv(b, j)) == 0); } }
      assert forall|k: int| 0 <= k < cs.len() implies #[trigger] cs[k] == 0 by {
        lemma_dot_swap(cs, b, xs[k], v, n as nat); lemma_dot_zero(v, xs[k]);
        let s = Seq::new(b.len(), |i: int| dot(b[i], xs[k]));
        assert forall|i: int| 0 <= i < cs.len() && i != k implies #[trigger] s[i] == 0 || cs[i] == 0 by { assert(dot(b[i], xs[k]) == 0); }
        lemma_dot_single(cs, s, k); assert((dot(b[k], xs[k]) == 0) == (k != k));
        assert(s[k] * cs[k] == 0) by (nonlinear_arith) requires cs[k] * s[k] == 0; lemma_mul_zero(s[k], cs[k]);
      }
    }
  }
  assert forall|i: int| 0 <= i < a.len() implies insp(b, #[trigger] a[i]) by {
    let w = a[i]; assert(rect(xs, n as nat)); let r = lemma_reduce(b, xs, w, n, b.len() as int); let y = r.2;
    assert forall|c: int| 0 <= c < n implies #[trigger] dot(y, xc(m, t, n, c)) == 0 by {
      if lc.contains(c as u64) {
        let q = choose|q: int| 0 <= q < lc.len() && lc[q] == c as u64; assert(fr(m, lc[q] as int) >= t); assert(is_fr(m, c, fr(m, c)));
        let z = xc(m, t, n, c); assert(dot(a[i], z) == -m[i][c]);
        assert(vanishes_on(b, z)) by { assert forall|k: int| 0 <= k < b.len() implies dot(#[trigger] b[k], z) == 0 by { assert(0 <= tcol(m, n, tr, k)); assert(dot(a[tr[k] as int], z) == -m[tr[k] as int][c]); } }
      } else { let k = choose|k: int| 0 <= k < tr.len() && #[trigger] tcol(m, n, tr, k) == c; assert(xs[k] == xc(m, t, n, c)); assert(dot(y, xs[k]) == 0); }
    }
    assert(all_zero(y));
    assert forall|j: int| 0 <= j < w.len() implies r.0 * #[trigger] w[j] == dot(r.1, colv(b, j)) by { assert(y[j] == 0); }
    assert(combines(b, w, r.0, r.1));
  }
  assert forall|k: int| 0 <= k < b.len() implies insp(a, #[trigger] b[k]) by { assert(0 <= tcol(m, n, tr, k)); lemma_insp_row(a, tr[k] as int); }
}
// the guarantees about extracted equations
pub open spec fn equations_of(eqs: Seq<Seq<int>>, a: Seq<Seq<int>>, n: int) -> bool {
  &&& rect(eqs, n as nat)
  &&& forall|k: int, i: int| 0 <= k < eqs.len() && 0 <= i < a.len() ==> #[trigger] dot(a[i], eqs[k]) == 0
  &&& forall|k: int| 0 <= k < eqs.len() ==> row_gcd(#[trigger] eqs[k]) == 1 && proper(eqs[k])
  &&& forall|k: int, l: int| 0 <= k < eqs.len() && 0 <= l < eqs.len() && k != l ==> lead(#[trigger] eqs[k]) != lead(#[trigger] eqs[l]) && eqs[k][lead(eqs[l])] == 0
  &&& indep(eqs, n)
}
pub proof fn lemma_lead_is(e: Seq<int>, p: int) requires 0 <= p < e.len(), e[p] != 0, forall|i: int| 0 <= i < p ==> #[trigger] e[i] == 0 ensures lead(e) == p
{ lemma_lead(e); if lead(e) < p { assert(e[lead(e)] == 0); } else if p < lead(e) { assert(e[p] == 0); } }
pub proof fn lemma_equations(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>, ind: Seq<u64>, eqs: Seq<Seq<int>>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX, ind.no_duplicates(), forall|x: u64| #[trigger] ind.contains(x) <==> lc.contains(x), eqs.len() == ind.len(),
    forall|k: int| 0 <= k < ind.len() ==> #[trigger] eqs[k] =~= xc(m, a.len() as int, n, ind[k] as int)
  ensures equations_of(eqs, a, n)
{
  lemma_tcol(a, n, m, tr, lc); lemma_gcols(a, n, m, tr, lc); let t = a.len() as int;
  assert forall|k: int| 0 <= k < ind.len() implies 0 <= #[trigger] ind[k] < n && fr(m, ind[k] as int) >= t by { assert(ind.contains(ind[k])); let q = choose|q: int| 0 <= q < lc.len() && lc[q] == ind[k]; assert(lc[q] < n); }
  assert(rect(eqs, n as nat));
  let p = Seq::new(eqs.len(), |k: int| fr(m, ind[k] as int) - t);
  assert forall|k: int| 0 <= k < eqs.len() implies 0 <= #[trigger] p[k] < n && eqs[k][p[k]] > 0 && lead(eqs[k]) == p[k] && proper(eqs[k]) && row_gcd(eqs[k]) == 1 by {
    let c = ind[k] as int; let f = fr(m, c); let e = eqs[k]; assert(0 <= ind[k] < n); assert(is_fr(m, c, f)); assert(m[f][c] > 0); assert(e =~= xc(m, t, n, c));
    assert forall|i: int| 0 <= i < p[k] implies #[trigger] e[i] == 0 by { assert(m[t + i][c] == 0); }
    lemma_lead_is(e, p[k]); lemma_row_gcd(e); assert(e == xc(m, t, n, c)); assert(row_gcd(xc(m, t, n, c)) <= 1); if row_gcd(e) == 0 { assert(e[p[k]] == 0); }
  }
  assert forall|k: int, l: int| 0 <= k < eqs.len() && 0 <= l < eqs.len() && k != l implies p[k] != p[l] && (#[trigger] eqs[k])[#[trigger] p[l]] == 0 by {
    let c = ind[k] as int; let d = ind[l] as int; assert(0 <= ind[k] < n && 0 <= ind[l] < n); assert(c != d); assert(fr(m, c) != fr(m, d)); assert(row_clear(m, fr(m, d), d, n)); assert(m[fr(m, d)][c] == 0);
    assert(eqs[k] =~= xc(m, t, n, c)); assert(p[l] >= 0);
  }
  assert forall|k: int, l: int| 0 <= k < eqs.len() && 0 <= l < eqs.len() && k != l implies lead(#[trigger] eqs[k]) != lead(#[trigger] eqs[l]) && eqs[k][lead(eqs[l])] == 0 by { assert(lead(eqs[k]) == p[k] && lead(eqs[l]) == p[l]); assert(eqs[k][p[l]] == 0); }
  assert(triangular(eqs, p, n)); lemma_triangular(eqs, p, n);
  assert forall|k: int| 0 <= k < eqs.len() implies row_gcd(#[trigger] eqs[k]) == 1 && proper(eqs[k]) by { assert(0 <= p[k]); }
  assert forall|k: int, i: int| 0 <= k < eqs.len() && 0 <= i < a.len() implies #[trigger] dot(a[i], eqs[k]) == 0 by { let c = ind[k] as int; assert(0 <= ind[k] < n); assert(eqs[k] == xc(m, t, n, c)); assert(dot(a[i], xc(m, t, n, c)) == -m[i][c]); assert(is_fr(m, c, fr(m, c))); }
}
// rows of the remaining matrix under the permutation pm of the old rows
pub open spec fn permuted(m: Seq<Seq<int>>, old: Seq<Seq<int>>, ind: Seq<u64>, i: int, pm: Seq<int>) -> bool {
  &&& m.len() == old.len() && pm.len() == old.len()
  &&& forall|p: int| 0 <= p < pm.len() ==> 0 <= #[trigger] pm[p] < old.len() && m[p] == old[pm[p]]
  &&& forall|p: int, q: int| 0 <= p < q < pm.len() ==> #[trigger] pm[p] != #[trigger] pm[q]
  &&& forall|j: int| 0 <= j < i ==> pm[old.len() - 1 - j] == #[trigger] ind[j]
  &&& forall|p: int| 0 <= p < pm.len() && (i > 0 ==> p < ind[i - 1]) ==> #[trigger] pm[p] == p
}
pub open spec fn is_permuted(m: Seq<Seq<int>>, old: Seq<Seq<int>>, ind: Seq<u64>, i: int) -> bool { exists|pm: Seq<int>| #[trigger] permuted(m, old, ind, i, pm) }
pub open spec fn descending(ind: Seq<u64>, n: int) -> bool { (forall|i: int, j: int| 0 <= i < j < ind.len() ==> #[trigger] ind[i] > #[trigger] ind[j]) && forall|i: int| 0 <= i < ind.len() ==> #[trigger] ind[i] < n }
pub proof fn lemma_descending(ind: Seq<u64>, n: int, k: int) requires descending(ind, n), 0 <= k < ind.len() ensures ind[k] <= n - 1 - k, ind[k] >= ind.len() - 1 - k, ind.len() <= n, ind.no_duplicates() decreases k
{
  assert forall|i: int| 0 <= i < ind.len() implies ind[i] <= n - 1 - i by { lemma_desc_hi(ind, n, i); }
  lemma_desc_lo(ind, n, k); lemma_desc_lo(ind, n, 0);
  assert forall|i: int, j: int| 0 <= i < j < ind.len() implies ind[i] != ind[j] by { assert(ind[i] > ind[j]); }
  assert(ind.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ind.len() && 0 <= j < ind.len() && i != j implies ind[i] != ind[j] by { if i < j { assert(ind[i] > ind[j]); } else { assert(ind[j] > ind[i]); } } }
}
pub proof fn lemma_desc_hi(ind: Seq<u64>, n: int, k: int) requires descending(ind, n), 0 <= k < ind.len() ensures ind[k] <= n - 1 - k decreases k
{ if k > 0 { lemma_desc_hi(ind, n, k - 1); assert(ind[k - 1] > ind[k]); } }
pub proof fn lemma_desc_lo(ind: Seq<u64>, n: int, k: int) requires descending(ind, n), 0 <= k < ind.len() ensures ind[k] >= ind.len() - 1 - k decreases ind.len() - k
{ if k + 1 < ind.len() { lemma_desc_lo(ind, n, k + 1); assert(ind[k] > ind[k + 1]); } }
pub proof fn lemma_permstep(m: Seq<Seq<int>>, m1: Seq<Seq<int>>, old: Seq<Seq<int>>, ind: Seq<u64>, i: int)
  requires is_permuted(m, old, ind, i), 0 <= i < ind.len(), descending(ind, old.len() as int), m1.len() == m.len(),
    m1 =~= m.update(ind[i] as int, m[m.len() - 1 - i]).update(m.len() - 1 - i, m[ind[i] as int])
  ensures is_permuted(m1, old, ind, i + 1)
{
  let pm = choose|pm: Seq<int>| #[trigger] permuted(m, old, ind, i, pm);
  lemma_descending(ind, old.len() as int, i);
  let e = m.len() - 1 - i; let q = ind[i] as int;
  if i > 0 { assert(ind[i - 1] > ind[i]); }
  assert(pm[q] == q);
  let pn = pm.update(q, pm[e]).update(e, pm[q]);
  assert forall|j: int| 0 <= j < i + 1 implies pn[old.len() - 1 - j] == #[trigger] ind[j] by {
    if j < i { assert(ind[j] > ind[i]); assert(pm[old.len() - 1 - j] == ind[j]); lemma_descending(ind, old.len() as int, j); assert(old.len() - 1 - j > e); }
  }
  assert forall|p: int| 0 <= p < pn.len() implies 0 <= #[trigger] pn[p] < old.len() && m1[p] == old[pn[p]] by { assert(0 <= pm[p] < old.len()); assert(0 <= pm[e] < old.len()); assert(0 <= pm[q] < old.len()); }
  assert forall|p: int, r: int| 0 <= p < r < pn.len() implies #[trigger] pn[p] != #[trigger] pn[r] by {
    let p0 = if p == e { q } else if p == q { e } else { p }; let r0 = if r == e { q } else if r == q { e } else { r };
    assert(pn[p] == pm[p0] && pn[r] == pm[r0]); if p0 < r0 { assert(pm[p0] != pm[r0]); } else { assert(pm[r0] != pm[p0]); }
  }
  assert forall|p: int| 0 <= p < pn.len() && p < ind[i] implies #[trigger] pn[p] == p by { assert(pm[p] == p); }
  assert(permuted(m1, old, ind, i + 1, pn));
}
pub open spec fn remaining(m: Seq<Seq<int>>, old: Seq<Seq<int>>, ind: Seq<u64>) -> bool {
  m.len() == old.len() - ind.len() && forall|p: int| 0 <= p < m.len() ==> kept_row(#[trigger] m[p], old, ind)
}
pub open spec fn kept_row(r: Seq<int>, old: Seq<Seq<int>>, ind: Seq<u64>) -> bool { exists|c: int| 0 <= c < old.len() && !ind.contains(c as u64) && r == #[trigger] old[c] }
pub proof fn lemma_permdone(m: Seq<Seq<int>>, old: Seq<Seq<int>>, ind: Seq<u64>)
  requires is_permuted(m, old, ind, ind.len() as int), descending(ind, old.len() as int), old.len() <= u64::MAX
  ensures ind.len() <= old.len(), remaining(m.take(m.len() - ind.len()), old, ind), forall|j: int| 0 <= j < ind.len() ==> m[m.len() - 1 - j] == old[#[trigger] ind[j] as int]
{
  let pm = choose|pm: Seq<int>| #[trigger] permuted(m, old, ind, ind.len() as int, pm);
  if ind.len() > 0 { lemma_descending(ind, old.len() as int, 0); }
  let r = m.take(m.len() - ind.len());
  assert forall|j: int| 0 <= j < ind.len() implies m[m.len() - 1 - j] == old[#[trigger] ind[j] as int] by { assert(pm[old.len() - 1 - j] == ind[j]); assert(0 <= pm[old.len() - 1 - j] < old.len()); }
  assert forall|p: int| 0 <= p < r.len() implies kept_row(#[trigger] r[p], old, ind) by {
    let c = pm[p]; assert(r[p] == old[c]);
    if ind.contains(c as u64) { let j = choose|j: int| 0 <= j < ind.len() && ind[j] == c as u64; assert(pm[old.len() - 1 - j] == ind[j]); assert(pm[p] != pm[old.len() - 1 - j]); }
  }
}
// row elimination
pub proof fn lemma_dimstep(a: Seq<Seq<int>>, n: int, cur: Seq<int>, mj: Seq<int>, p: int, new: Seq<int>)
  requires cur.len() == n, mj.len() == n, 0 <= p < n, mj[p] != 0, insp(a, cur), insp(a, mj), new =~= primitive(vadd(vscale(cur, -mj[p]), vscale(mj, cur[p])))
  ensures new.len() == n, insp(a, new), new[p] == 0, forall|q: int| 0 <= q < n && cur[q] == 0 && mj[q] == 0 ==> #[trigger] new[q] == 0,
    forall|b: Seq<Seq<int>>| insp(b, new) && insp(b, mj) ==> #[trigger] insp(b, cur)
{
  let k = -mj[p]; let f = cur[p]; let s = vadd(vscale(cur, k), vscale(mj, f)); lemma_primitive(s); lemma_row_gcd(s);
  let g = if row_gcd(s) > 0 { row_gcd(s) } else { 1 };
  assert forall|j: int| 0 <= j < n implies g * #[trigger] new[j] == k * cur[j] + f * mj[j] by {
    assert(s[j] == cur[j] * k + mj[j] * f); if row_gcd(s) > 0 { assert(vscale(primitive(s), g)[j] == s[j]); }
    assert(g * new[j] == new[j] * g && k * cur[j] == cur[j] * k && f * mj[j] == mj[j] * f) by (nonlinear_arith);
  }
  lemma_insp_comb(a, cur, mj, new, k, f, g);
  assert(s[p] == 0) by (nonlinear_arith) requires s[p] == cur[p] * k + mj[p] * f, k == -mj[p], f == cur[p];
  assert forall|q: int| 0 <= q < n && cur[q] == 0 && mj[q] == 0 implies #[trigger] new[q] == 0 by { assert(0 * k == 0 && 0 * f == 0) by (nonlinear_arith); assert(s[q] == 0); }
  assert forall|b: Seq<Seq<int>>| insp(b, new) && insp(b, mj) implies #[trigger] insp(b, cur) by {
    assert forall|j: int| 0 <= j < n implies k * #[trigger] cur[j] == g * new[j] + (-f) * mj[j] by { assert((-f) * mj[j] == -(f * mj[j])) by (nonlinear_arith); assert(g * new[j] == k * cur[j] + f * mj[j]); }
    lemma_insp_comb(b, new, mj, cur, g, -f, k);
  }
}
