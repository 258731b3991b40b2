// ---- zero columns
pub open spec fn exp_row(r: Seq<int>, zc: Seq<u64>) -> Seq<int> decreases zc.len() { if zc.len() == 0 { r } else { exp_row(r.insert(zc[zc.len() - 1] as int, 0int), zc.drop_last()) } }
pub open spec fn strip(v: Seq<int>, zc: Seq<u64>) -> Seq<int> decreases zc.len() { if zc.len() == 0 { v } else { strip(v, zc.drop_last()).remove(zc[zc.len() - 1] as int) } }
pub open spec fn zero_col(m: Seq<Seq<int>>, c: int) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])[c] == 0 }
// all entries of v at the stripped positions vanish
pub open spec fn zero_at(v: Seq<int>, zc: Seq<u64>) -> bool { forall|k: int| 0 <= k < zc.len() ==> v[#[trigger] zc[k] as int] == 0 }
pub proof fn lemma_strip(v: Seq<int>, zc: Seq<u64>)
  requires descending(zc, v.len() as int)
  ensures strip(v, zc).len() == v.len() - zc.len(), zc.len() <= v.len(),
    forall|c: int| 0 <= c < v.len() && (forall|k: int| 0 <= k < zc.len() ==> c < #[trigger] zc[k]) ==> c < strip(v, zc).len() && #[trigger] strip(v, zc)[c] == v[c],
    zero_at(v, zc) ==> exp_row(strip(v, zc), zc) =~= v
  decreases zc.len()
{
  if zc.len() > 0 {
    let l = (zc.len() - 1) as int; let p = zc.drop_last();
    assert(descending(p, v.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] > #[trigger] p[j] by { assert(zc[i] > zc[j]); } assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < v.len() by { assert(zc[i] < v.len()); } }
    lemma_descending(zc, v.len() as int, l); lemma_strip(v, p);
    let s = strip(v, p); let c = zc[l] as int;
    assert(0 <= c < s.len());
    assert forall|q: int| 0 <= q < v.len() && (forall|k: int| 0 <= k < zc.len() ==> q < #[trigger] zc[k]) implies q < strip(v, zc).len() && #[trigger] strip(v, zc)[q] == v[q] by {
      assert(q < zc[l]); assert forall|k: int| 0 <= k < p.len() implies q < #[trigger] p[k] by { assert(zc[k] == p[k]); } assert(s[q] == v[q]);
    }
    if zero_at(v, zc) {
      assert(zero_at(v, p)) by { assert forall|k: int| 0 <= k < p.len() implies v[#[trigger] p[k] as int] == 0 by { assert(zc[k] == p[k]); } }
      assert(v[zc[l] as int] == 0);
      assert forall|k: int| 0 <= k < p.len() implies c < #[trigger] p[k] by { assert(zc[k] > zc[l]); }
      assert(s[c] == v[c]);
      assert(s.remove(c).insert(c, 0int) =~= s);
    }
  }
}
pub proof fn lemma_dot_insert(r: Seq<int>, v: Seq<int>, c: int)
  requires 0 <= c <= r.len(), v.len() == r.len() + 1
  ensures dot(r.insert(c, 0int), v) == dot(r, v.remove(c))
  decreases r.len()
{
  let e = r.insert(c, 0int);
  if c == r.len() {
    assert(e.drop_last() =~= r); lemma_dot_ext(r, v, r, v.remove(c)); assert(e[e.len() - 1] == 0); assert(0 * v[v.len() - 1] == 0);
  } else {
    let n = r.len() - 1; let q = r.drop_last(); let w = v.drop_last();
    lemma_dot_insert(q, w, c);
    assert(e.drop_last() =~= q.insert(c, 0int)); assert(e[e.len() - 1] == r[n]); assert(v.remove(c)[n] == v[v.len() - 1]);
    lemma_dot_ext(e.drop_last(), v, q.insert(c, 0int), w); lemma_dot_ext(q, v.remove(c), q, w.remove(c));
  }
}
pub proof fn lemma_exp(r: Seq<int>, zc: Seq<u64>, n: int)
  requires descending(zc, n), r.len() == n - zc.len()
  ensures exp_row(r, zc).len() == n, row_gcd(exp_row(r, zc)) == row_gcd(r), forall|v: Seq<int>| v.len() == n ==> dot(#[trigger] exp_row(r, zc), v) == dot(r, strip(v, zc)),
    zc.len() > 0 ==> 0 <= zc[zc.len() - 1] <= r.len()
  decreases zc.len()
{
  if zc.len() > 0 {
    let l = (zc.len() - 1) as int; let p = zc.drop_last(); let c = zc[l] as int;
    lemma_descending(zc, n, l);
    assert(descending(p, n)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] > #[trigger] p[j] by { assert(zc[i] > zc[j]); } assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < n by { assert(zc[i] < n); } }
    let e = r.insert(c, 0int);
    lemma_exp(e, p, n); lemma_gcd_insert(r, c);
    assert forall|v: Seq<int>| v.len() == n implies dot(#[trigger] exp_row(r, zc), v) == dot(r, strip(v, zc)) by {
      lemma_strip(v, p); assert(dot(exp_row(e, p), v) == dot(e, strip(v, p))); lemma_dot_insert(r, strip(v, p), c);
    }
  }
}
pub proof fn lemma_gcd_insert(r: Seq<int>, c: int) requires 0 <= c <= r.len() ensures row_gcd(r.insert(c, 0int)) == row_gcd(r)
{
  let e = r.insert(c, 0int); lemma_row_gcd(r); lemma_row_gcd(e); let g = row_gcd(r); let h = row_gcd(e);
  assert forall|i: int| 0 <= i < e.len() implies divides(g, #[trigger] e[i]) by { if i < c { assert(e[i] == r[i]); assert(divides(g, r[i])); } else if i > c { assert(e[i] == r[i - 1]); assert(divides(g, r[i - 1])); } else { assert(g * 0 == 0); } }
  assert forall|i: int| 0 <= i < r.len() implies divides(h, #[trigger] r[i]) by { if i < c { assert(e[i] == r[i]); assert(divides(h, e[i])); } else { assert(e[i + 1] == r[i]); assert(divides(h, e[i + 1])); } }
  assert(divides(g, h) && divides(h, g));
  lemma_divides_both(g, h);
}
pub proof fn lemma_divides_both(g: int, h: int) requires g >= 0, h >= 0, divides(g, h), divides(h, g) ensures g == h
{
  let p = choose|q: int| #[trigger] (g * q) == h; let q = choose|q: int| #[trigger] (h * q) == g;
  if g == 0 { assert(0 * p == 0); } else if h == 0 { assert(0 * q == 0); }
  else {
    assert(p > 0) by (nonlinear_arith) requires g * p == h, g > 0, h > 0; assert(q > 0) by (nonlinear_arith) requires h * q == g, g > 0, h > 0;
    assert(h >= g) by (nonlinear_arith) requires g * p == h, p > 0, g > 0; assert(g >= h) by (nonlinear_arith) requires h * q == g, q > 0, h > 0;
  }
}
// ---- valid rows: primitive, no vertex of the first k cut off, at least one of them not on the hyperplane
pub open spec fn below(r: Seq<int>, vs: Seq<Seq<int>>, k: int) -> bool { forall|j: int| 0 <= j < k && j < vs.len() ==> dot(r, #[trigger] vs[j]) <= 0 }
pub open spec fn strict(r: Seq<int>, vs: Seq<Seq<int>>, k: int) -> bool { exists|j: int| 0 <= j < k && j < vs.len() && dot(r, #[trigger] vs[j]) < 0 }
pub open spec fn fm_row(r: Seq<int>, vs: Seq<Seq<int>>, k: int, w: int) -> bool { r.len() == w && row_gcd(r) == 1 && below(r, vs, k) && strict(r, vs, k) }
#[verifier::opaque]
pub open spec fn fm_inv(m: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int) -> bool { forall|i: int| 0 <= i < m.len() ==> fm_row(#[trigger] m[i], vs, k, w) }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn prods(m: Seq<Seq<int>>, v: Seq<int>) -> Seq<int> { Seq::new(m.len(), |i: int| dot(m[i], v)) }
// ---- one step: a row of the new system is an old row that the new vertex satisfies, or a primitive positive combination of a violated and a strictly satisfied row
pub open spec fn comb_of(r: Seq<int>, n: Seq<int>, p: Seq<int>, a: int, b: int, g: int) -> bool { g > 0 && r.len() == n.len() && row_gcd(r) <= 1 && forall|c: int| 0 <= c < r.len() ==> g * #[trigger] r[c] == a * n[c] - b * p[c] }
pub open spec fn kept_by(r: Seq<int>, m: Seq<Seq<int>>, s: Seq<int>, i: int) -> bool { 0 <= i < m.len() && r == m[i] && s[i] <= 0 }
pub open spec fn combined(r: Seq<int>, m: Seq<Seq<int>>, s: Seq<int>, n: int, p: int, g: int) -> bool { 0 <= n < m.len() && 0 <= p < m.len() && s[n] < 0 && s[p] > 0 && comb_of(r, m[n], m[p], s[p], s[n], g) }
pub open spec fn proj_row(r: Seq<int>, m: Seq<Seq<int>>, s: Seq<int>) -> bool { (exists|i: int| #[trigger] kept_by(r, m, s, i)) || exists|n: int, p: int, g: int| #[trigger] combined(r, m, s, n, p, g) }
pub open spec fn proj(m1: Seq<Seq<int>>, m: Seq<Seq<int>>, s: Seq<int>) -> bool { forall|i: int| 0 <= i < m1.len() ==> proj_row(#[trigger] m1[i], m, s) }
pub proof fn lemma_fm_rect(m: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int) requires fm_inv(m, vs, k, w), w >= 0 ensures rect(m, w as nat) { reveal(fm_inv); assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).len() == w by { assert(fm_row(m[i], vs, k, w)); } }
pub proof fn lemma_fm_row(m: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int, i: int) requires fm_inv(m, vs, k, w), 0 <= i < m.len() ensures fm_row(m[i], vs, k, w) { reveal(fm_inv); }
pub proof fn lemma_proj_row(r: Seq<int>, m: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int, i: int)
  requires fm_inv(m, vs, k, w), proj_row(r, m, prods(m, vs[i])), rect(vs, w as nat), w >= 0, 0 <= i < vs.len(), i <= k
  ensures fm_row(r, vs, imax(k, i + 1), w)
{
  let s = prods(m, vs[i]); let k1 = imax(k, i + 1);
  assert(vs[i].len() == w);
  if exists|q: int| #[trigger] kept_by(r, m, s, q) {
    let q = choose|q: int| #[trigger] kept_by(r, m, s, q);
    lemma_fm_row(m, vs, k, w, q);
    assert(dot(r, vs[i]) <= 0);
    assert forall|j: int| 0 <= j < k1 && j < vs.len() implies dot(r, #[trigger] vs[j]) <= 0 by { }
    let j = choose|j: int| 0 <= j < k && j < vs.len() && dot(r, #[trigger] vs[j]) < 0;
    assert(strict(r, vs, k1));
  } else {
    let (n, p, g) = choose|n: int, p: int, g: int| #[trigger] combined(r, m, s, n, p, g);
    lemma_fm_row(m, vs, k, w, n); lemma_fm_row(m, vs, k, w, p);
    let a = s[p]; let b = -s[n]; let rn = m[n]; let rp = m[p];
    assert forall|j: int| 0 <= j < vs.len() implies g * dot(r, #[trigger] vs[j]) == a * dot(rn, vs[j]) + b * dot(rp, vs[j]) by {
      let x = vs[j]; assert(x.len() == w);
      assert forall|c: int| 0 <= c < x.len() implies g * #[trigger] r[c] == a * rn[c] + b * rp[c] by { let u = rp[c]; let sn = s[n]; assert(b * u == -(sn * u)) by (nonlinear_arith) requires b == -sn; }
      lemma_dot_comb2(x, rn, rp, r, g, a, b); lemma_dot_comm(x, r); lemma_dot_comm(x, rn); lemma_dot_comm(x, rp);
    }
    assert forall|j: int| 0 <= j < k1 && j < vs.len() implies dot(r, #[trigger] vs[j]) <= 0 by {
      let x = dot(r, vs[j]); let y = dot(rn, vs[j]); let z = dot(rp, vs[j]);
      assert(g * x == a * y + b * z);
      if j == i { assert(y == -b && z == a); assert(x == 0) by (nonlinear_arith) requires g * x == a * y + b * z, y == -b, z == a, g > 0; }
      else { assert(j < k); assert(x <= 0) by (nonlinear_arith) requires g * x == a * y + b * z, y <= 0, z <= 0, a > 0, b > 0, g > 0; }
    }
    let j = choose|j: int| 0 <= j < k && j < vs.len() && dot(rn, #[trigger] vs[j]) < 0;
    let x = dot(r, vs[j]); let y = dot(rn, vs[j]); let z = dot(rp, vs[j]);
    assert(g * x == a * y + b * z);
    assert(x < 0) by (nonlinear_arith) requires g * x == a * y + b * z, y < 0, z <= 0, a > 0, b > 0, g > 0;
    assert(strict(r, vs, k1));
    lemma_row_gcd(r);
    if all_zero(r) { lemma_dot_zero(r, vs[j]); }
    assert(row_gcd(r) == 1);
  }
}
pub proof fn lemma_proj(m1: Seq<Seq<int>>, m: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int, i: int)
  requires fm_inv(m, vs, k, w), proj(m1, m, prods(m, vs[i])), rect(vs, w as nat), w >= 0, 0 <= i < vs.len(), i <= k
  ensures fm_inv(m1, vs, imax(k, i + 1), w)
{
  reveal(fm_inv);
  assert forall|q: int| 0 <= q < m1.len() implies fm_row(#[trigger] m1[q], vs, imax(k, i + 1), w) by { assert(proj_row(m1[q], m, prods(m, vs[i]))); lemma_proj_row(m1[q], m, vs, k, w, i); }
}
pub proof fn lemma_combine(n: Seq<int>, p: Seq<int>, a: int, b: int, r: Seq<int>)
  requires n.len() == p.len(), r == primitive(vsub(vscale(n, a), vscale(p, b)))
  ensures exists|g: int| #[trigger] comb_of(r, n, p, a, b, g)
{
  let z = vsub(vscale(n, a), vscale(p, b)); lemma_primitive(z); lemma_row_gcd(z); let g = if row_gcd(z) > 0 { row_gcd(z) } else { 1int };
  assert forall|c: int| 0 <= c < r.len() implies g * #[trigger] r[c] == a * n[c] - b * p[c] by {
    let nc = n[c]; let pc = p[c]; let rc = r[c]; assert(z[c] == nc * a - pc * b); assert(nc * a == a * nc && pc * b == b * pc) by (nonlinear_arith);
    if row_gcd(z) > 0 { assert(vscale(r, g)[c] == z[c]); assert(rc * g == g * rc) by (nonlinear_arith); } else { assert(r[c] == z[c]); }
  }
  assert(comb_of(r, n, p, a, b, g));
}
// ---- index lists
pub open spec fn all_neg(ix: Seq<u64>, s: Seq<int>) -> bool { forall|q: int| 0 <= q < ix.len() ==> (#[trigger] ix[q]) < s.len() && s[ix[q] as int] < 0 }
pub open spec fn all_nul(ix: Seq<u64>, s: Seq<int>) -> bool { forall|q: int| 0 <= q < ix.len() ==> (#[trigger] ix[q]) < s.len() && s[ix[q] as int] == 0 }
pub open spec fn all_pos(ix: Seq<u64>, s: Seq<int>) -> bool { forall|q: int| 0 <= q < ix.len() ==> (#[trigger] ix[q]) < s.len() && s[ix[q] as int] > 0 }
pub open spec fn from_rows(m: Seq<Seq<int>>, old: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < m.len() ==> old.contains(#[trigger] m[i]) }
pub proof fn lemma_from_rows(m: Seq<Seq<int>>, old: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int) requires fm_inv(old, vs, k, w), from_rows(m, old) ensures fm_inv(m, vs, k, w)
{ reveal(fm_inv); assert forall|i: int| 0 <= i < m.len() implies fm_row(#[trigger] m[i], vs, k, w) by { let j = choose|j: int| 0 <= j < old.len() && old[j] == m[i]; assert(fm_row(old[j], vs, k, w)); } }
// ---- reordering of the rays: pivot rows first
pub open spec fn covers(a: Seq<Seq<int>>, old: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < old.len() ==> a.contains(#[trigger] old[i]) }
// words of a set for n indices: fixed size k, or as many as needed
pub open spec fn capacity(k: int, n: u64) -> int { if k == 0 { words(n) } else { k } }

pub proof fn lemma_above(zc: Seq<u64>, n: int, col: int) requires descending(zc, n), 0 <= col <= n, forall|k: int| 0 <= k < zc.len() ==> #[trigger] zc[k] >= col ensures zc.len() + col <= n
{ if zc.len() > 0 { lemma_descending(zc, n, zc.len() - 1); } }
pub proof fn lemma_strip_at(v: Seq<int>, zc: Seq<u64>, c: int) requires descending(zc, v.len() as int), 0 <= c < v.len(), forall|k: int| 0 <= k < zc.len() ==> c < #[trigger] zc[k] ensures c < strip(v, zc).len(), strip(v, zc)[c] == v[c]
{ lemma_strip(v, zc); assert(strip(v, zc)[c] == v[c]); }
// rows that the remaining rays satisfy as well are valid for all of them
pub proof fn lemma_all_below(m: Seq<Seq<int>>, old: Seq<Seq<int>>, vs: Seq<Seq<int>>, k: int, w: int)
  requires fm_inv(old, vs, k, w), from_rows(m, old), k <= vs.len(), forall|i: int, j: int| 0 <= i < m.len() && k <= j < vs.len() ==> dot(#[trigger] m[i], #[trigger] vs[j]) <= 0
  ensures fm_inv(m, vs, vs.len() as int, w)
{
  lemma_from_rows(m, old, vs, k, w);
  assert forall|i: int| 0 <= i < m.len() implies fm_row(#[trigger] m[i], vs, vs.len() as int, w) by { lemma_fm_row(m, vs, k, w, i); let r = m[i]; let j = choose|j: int| 0 <= j < k && j < vs.len() && dot(r, #[trigger] vs[j]) < 0; assert(strict(r, vs, vs.len() as int)); }
  reveal(fm_inv);
}
// ---- the start of the projection: rows from the finished elimination
pub open spec fn nonzero(a: Seq<Seq<int>>) -> bool { exists|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i].len() && #[trigger] a[i][j] != 0 }
pub open spec fn pivot_row(r: Seq<int>, a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>) -> bool { exists|k: int| 0 <= k < tr.len() && r == #[trigger] xc(m, a.len() as int, n, tcol(m, n, tr, k)) }
pub open spec fn pivot_rows(b: Seq<Seq<int>>, a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>) -> bool { forall|i: int| 0 <= i < b.len() ==> pivot_row(#[trigger] b[i], a, n, m, tr) }
pub proof fn lemma_ascending_len(tr: Seq<u64>, t: int, k: int) requires forall|k: int, l: int| 0 <= k < l < tr.len() ==> #[trigger] tr[k] < #[trigger] tr[l], 0 <= k < tr.len() ensures tr[k] >= k decreases k
{ if k > 0 { lemma_ascending_len(tr, t, k - 1); assert(tr[k - 1] < tr[k]); } }
pub proof fn lemma_fme_start(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>, ind: Seq<u64>, x: Seq<Seq<int>>, b: Seq<Seq<int>>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX, descending(ind, n), forall|x: u64| #[trigger] ind.contains(x) <==> lc.contains(x), ind.len() == lc.len(),
    x.len() == n, forall|c: int| 0 <= c < n ==> #[trigger] x[c] =~= xc(m, a.len() as int, n, c), remaining(b, x, ind), nonzero(a)
  ensures b.len() == tr.len(), 0 < tr.len() <= a.len(), rect(b, n as nat), pivot_rows(b, a, n, m, tr), b[0].len() == n
{
  lemma_tcol(a, n, m, tr, lc); lemma_gcols(a, n, m, tr, lc); lemma_count(a, n, m, tr, lc); let t = a.len() as int;
  assert forall|i: int| 0 <= i < b.len() implies pivot_row(#[trigger] b[i], a, n, m, tr) by {
    assert(kept_row(b[i], x, ind)); let c = choose|c: int| 0 <= c < x.len() && !ind.contains(c as u64) && b[i] == #[trigger] x[c];
    assert(!lc.contains(c as u64)); let k = choose|k: int| 0 <= k < tr.len() && #[trigger] tcol(m, n, tr, k) == c; assert(x[c] =~= xc(m, t, n, tcol(m, n, tr, k)));
  }
  assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).len() == n by { assert(pivot_row(b[i], a, n, m, tr)); }
  let (i, j) = choose|i: int, j: int| 0 <= i < a.len() && 0 <= j < a[i].len() && #[trigger] a[i][j] != 0;
  assert(a[i].len() == n);
  if tr.len() == 0 {
    assert forall|c: int| 0 <= c < n implies #[trigger] dot(a[i], xc(m, t, n, c)) == 0 by {
      assert(lc.contains(c as u64)); let k = choose|k: int| 0 <= k < lc.len() && lc[k] == c as u64; assert(fr(m, lc[k] as int) >= t); assert(is_fr(m, c, fr(m, c))); assert(dot(a[i], xc(m, t, n, c)) == -m[i][c]);
    }
    assert(all_zero(a[i])); assert(a[i][j] == 0);
  }
  lemma_ascending_len(tr, t, tr.len() - 1); assert(0 <= tcol(m, n, tr, tr.len() - 1));
}
// at least one column vanishes for every equation
pub proof fn lemma_fme_width(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>, b: Seq<Seq<int>>, zc: Seq<u64>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX, b.len() > 0, rect(b, n as nat), pivot_rows(b, a, n, m, tr), descending(zc, n), forall|c: int| 0 <= c < n && #[trigger] zero_col(b, c) ==> zc.contains(c as u64)
  ensures n - zc.len() <= tr.len(), zc.len() <= n
{
  lemma_tcol(a, n, m, tr, lc); lemma_gcols(a, n, m, tr, lc); lemma_count(a, n, m, tr, lc); let t = a.len() as int;
  let z = Seq::new(lc.len(), |k: int| (fr(m, lc[k] as int) - t) as u64);
  assert forall|k: int| 0 <= k < lc.len() implies 0 <= fr(m, lc[k] as int) - t < n && zc.contains(#[trigger] z[k]) by {
    let c = lc[k] as int; let f = fr(m, c); assert(f >= t); assert(0 <= fr(m, c) < m.len()); let j = f - t;
    assert(row_clear(m, f, c, n));
    assert(zero_col(b, j)) by {
      assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i])[j] == 0 by {
        assert(pivot_row(b[i], a, n, m, tr)); let q = choose|q: int| 0 <= q < tr.len() && b[i] == #[trigger] xc(m, t, n, tcol(m, n, tr, q)); let d = tcol(m, n, tr, q);
        assert(0 <= d < n && fr(m, d) == tr[q] && tr[q] < t); assert(d != c); assert(m[f][d] == 0); assert(b[i][j] == m[t + j][d]);
      }
    }
    assert(zc.contains(j as u64));
  }
  assert forall|k: int, l: int| 0 <= k < l < z.len() implies z[k] != z[l] by {
    assert(zc.contains(z[k]) && zc.contains(z[l])); assert(0 <= fr(m, lc[k] as int) - t < n && 0 <= fr(m, lc[l] as int) - t < n); assert(fr(m, lc[k] as int) >= t); if z[k] == z[l] { assert(fr(m, lc[k] as int) == fr(m, lc[l] as int)); assert(lc[k] != lc[l]); }
  }
  if zc.len() > 0 { lemma_descending(zc, n, 0); } else { assert(zc.no_duplicates()); }
  assert(z.no_duplicates()); z.unique_seq_to_set(); zc.unique_seq_to_set();
  assert(z.to_set().subset_of(zc.to_set())) by { assert forall|v: u64| z.to_set().contains(v) implies zc.to_set().contains(v) by { let k = choose|k: int| 0 <= k < z.len() && z[k] == v; assert(zc.contains(z[k])); } }
  vstd::set_lib::lemma_len_subset(z.to_set(), zc.to_set());
}
// the rays, pivot rows first
#[verifier::opaque]
pub open spec fn reordered(input: Seq<Seq<int>>, used: Seq<Seq<int>>, s: Seq<Seq<int>>, tr: Seq<u64>, it: int) -> bool {
  &&& 0 <= it <= tr.len() && used.len() == it && input.len() == s.len() - it
  &&& forall|j: int| 0 <= j < it ==> #[trigger] used[j] == s[tr[tr.len() - 1 - j] as int]
  &&& forall|p: int| 0 <= p < s.len() && (it > 0 ==> p < tr[tr.len() - it]) ==> p < input.len() && #[trigger] input[p] == s[p]
  &&& forall|i: int| 0 <= i < s.len() ==> used.contains(#[trigger] s[i]) || input.contains(s[i])
  &&& from_rows(input, s)
}
pub open spec fn ascending(tr: Seq<u64>, t: int) -> bool { (forall|k: int, l: int| 0 <= k < l < tr.len() ==> #[trigger] tr[k] < #[trigger] tr[l]) && forall|k: int| 0 <= k < tr.len() ==> #[trigger] tr[k] < t }
pub proof fn lemma_reorder_init(s: Seq<Seq<int>>, tr: Seq<u64>) ensures reordered(s, Seq::<Seq<int>>::empty(), s, tr, 0) { reveal(reordered); }
pub proof fn lemma_reorder_shape(input: Seq<Seq<int>>, used: Seq<Seq<int>>, s: Seq<Seq<int>>, tr: Seq<u64>, it: int) requires reordered(input, used, s, tr, it), ascending(tr, s.len() as int), it < tr.len() ensures tr[tr.len() - 1 - it] < input.len(), input[tr[tr.len() - 1 - it] as int] == s[tr[tr.len() - 1 - it] as int]
{ reveal(reordered); let q = tr[tr.len() - 1 - it] as int; if it > 0 { assert(tr[tr.len() - 1 - it] < tr[tr.len() - it]); } assert(q < s.len()); assert(input[q] == s[q]); }
pub proof fn lemma_reorder_step(input: Seq<Seq<int>>, used: Seq<Seq<int>>, s: Seq<Seq<int>>, tr: Seq<u64>, it: int)
  requires reordered(input, used, s, tr, it), ascending(tr, s.len() as int), it < tr.len()
  ensures reordered(input.remove(tr[tr.len() - 1 - it] as int), used.push(input[tr[tr.len() - 1 - it] as int]), s, tr, it + 1)
{
  lemma_reorder_shape(input, used, s, tr, it); reveal(reordered); let q = tr[tr.len() - 1 - it] as int; let i2 = input.remove(q); let u2 = used.push(input[q]);
  assert forall|p: int| 0 <= p < s.len() && p < tr[tr.len() - (it + 1)] implies p < i2.len() && #[trigger] i2[p] == s[p] by { if it > 0 { assert(tr[tr.len() - 1 - it] < tr[tr.len() - it]); } assert(input[p] == s[p]); assert(i2[p] == input[p]); }
  assert forall|i: int| 0 <= i < s.len() implies u2.contains(#[trigger] s[i]) || i2.contains(s[i]) by {
    if used.contains(s[i]) { let k = choose|k: int| 0 <= k < used.len() && used[k] == s[i]; assert(u2[k] == s[i]); }
    else { let k = choose|k: int| 0 <= k < input.len() && input[k] == s[i]; if k == q { assert(u2[it] == s[i]); } else if k < q { assert(i2[k] == s[i]); } else { assert(i2[k - 1] == s[i]); } }
  }
  assert(from_rows(i2, s)) by { assert forall|i: int| 0 <= i < i2.len() implies s.contains(#[trigger] i2[i]) by { assert(i2[i] == input[if i < q { i } else { i + 1 }]); assert(s.contains(input[if i < q { i } else { i + 1 }])); } }
}
// no ray is cut off by the rows the projection starts with
pub open spec fn stripped(s: Seq<Seq<int>>, a: Seq<Seq<int>>, zc: Seq<u64>) -> bool { s.len() == a.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == strip(a[i], zc) }
pub proof fn lemma_fme_inv(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>, b: Seq<Seq<int>>, zc: Seq<u64>, b2: Seq<Seq<int>>, s: Seq<Seq<int>>, input: Seq<Seq<int>>, used: Seq<Seq<int>>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX, b.len() == tr.len(), rect(b, n as nat), pivot_rows(b, a, n, m, tr), descending(zc, n), stripped(b2, b, zc), stripped(s, a, zc), forall|i: int| 0 <= i < b.len() ==> zero_at(#[trigger] b[i], zc),
    reordered(input, used, s, tr, tr.len() as int)
  ensures fm_inv(b2, used + input, tr.len() as int, n - zc.len()), rect(used + input, (n - zc.len()) as nat), (used + input).len() == s.len(), n - zc.len() > 0 || b.len() == 0,
    covers(used + input, s), from_rows(used + input, s)
{
  reveal(reordered); reveal(fm_inv); lemma_tcol(a, n, m, tr, lc); lemma_gcols(a, n, m, tr, lc); let t = a.len() as int; let w = n - zc.len(); let vs = used + input;
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() == w by { assert(a[i].len() == n); lemma_strip(a[i], zc); }
  assert forall|i: int| 0 <= i < vs.len() implies s.contains(#[trigger] vs[i]) by {
    if i < used.len() { let q = tr[tr.len() - 1 - i] as int; assert(used[i] == s[q]); assert(0 <= tcol(m, n, tr, tr.len() - 1 - i)); } else { assert(s.contains(input[i - used.len()])); }
  }
  assert(rect(vs, w as nat)) by { assert forall|i: int| 0 <= i < vs.len() implies (#[trigger] vs[i]).len() == w by { assert(s.contains(vs[i])); } }
  assert(covers(vs, s)) by { assert forall|i: int| 0 <= i < s.len() implies vs.contains(#[trigger] s[i]) by { if used.contains(s[i]) { let k = choose|k: int| 0 <= k < used.len() && used[k] == s[i]; assert(vs[k] == s[i]); } else { let k = choose|k: int| 0 <= k < input.len() && input[k] == s[i]; assert(vs[used.len() + k] == s[i]); } } }
  assert forall|i: int| 0 <= i < b2.len() implies fm_row(#[trigger] b2[i], vs, tr.len() as int, w) by {
    let r = b2[i]; let x = b[i]; assert(r == strip(x, zc)); assert(zero_at(x, zc)); assert(x.len() == n); lemma_strip(x, zc); lemma_exp(r, zc, n); assert(exp_row(r, zc) == x);
    assert(pivot_row(x, a, n, m, tr)); let k = choose|k: int| 0 <= k < tr.len() && x == #[trigger] xc(m, t, n, tcol(m, n, tr, k)); let c = tcol(m, n, tr, k);
    assert(0 <= c < n && fr(m, c) == tr[k] && tr[k] < t);
    assert forall|j: int| 0 <= j < tr.len() && j < vs.len() implies dot(r, #[trigger] vs[j]) == -m[tr[tr.len() - 1 - j] as int][c] && dot(r, vs[j]) <= 0 by {
      let l = tr.len() - 1 - j; let q = tr[l] as int; assert(vs[j] == used[j] && used[j] == s[q]); let d = tcol(m, n, tr, l); assert(0 <= d < n && fr(m, d) == tr[l] && tr[l] < t); assert(s[q] == strip(a[q], zc)); assert(a[q].len() == n);
      assert(dot(exp_row(r, zc), a[q]) == dot(r, strip(a[q], zc))); lemma_dot_comm(a[q], x); assert(dot(a[q], xc(m, t, n, c)) == -m[q][c]);
      if d == c { assert(m[fr(m, c)][c] > 0); } else { assert(row_clear(m, fr(m, d), d, n)); assert(m[q][c] == 0); }
    }
    let j = tr.len() - 1 - k; assert(vs[j] == used[j]); assert(dot(r, vs[j]) == -m[tr[tr.len() - 1 - j] as int][c]); assert(m[fr(m, c)][c] > 0); assert(dot(r, vs[j]) < 0); assert(strict(r, vs, tr.len() as int));
    lemma_row_gcd(x); assert(row_gcd(xc(m, t, n, c)) <= 1); lemma_row_gcd(r); if all_zero(r) { lemma_dot_zero(r, vs[j]); }
    assert(row_gcd(r) == 1);
  }
  if b.len() > 0 { assert(b2.len() > 0); assert(fm_row(b2[0], vs, tr.len() as int, w)); if w == 0 { assert(all_zero(b2[0])); lemma_row_gcd(b2[0]); } }
}
// valid, primitive, and not satisfied with equality by all rays
pub open spec fn supports(r: Seq<int>, a: Seq<Seq<int>>, n: int) -> bool { r.len() == n && row_gcd(r) == 1 && (forall|i: int| 0 <= i < a.len() ==> dot(r, #[trigger] a[i]) <= 0) && exists|i: int| 0 <= i < a.len() && dot(r, #[trigger] a[i]) < 0 }
pub proof fn lemma_fme_end(a: Seq<Seq<int>>, n: int, zc: Seq<u64>, s: Seq<Seq<int>>, vs: Seq<Seq<int>>, r: Seq<int>)
  requires fm_row(r, vs, vs.len() as int, n - zc.len()), rect(a, n as nat), n >= 0, descending(zc, n), stripped(s, a, zc), covers(vs, s), from_rows(vs, s)
  ensures supports(exp_row(r, zc), a, n)
{
  lemma_exp(r, zc, n); let x = exp_row(r, zc);
  assert forall|i: int| 0 <= i < a.len() implies dot(x, #[trigger] a[i]) == dot(r, s[i]) by { assert(a[i].len() == n); assert(s[i] == strip(a[i], zc)); }
  assert forall|i: int| 0 <= i < a.len() implies dot(x, #[trigger] a[i]) <= 0 by { assert(vs.contains(s[i])); let k = choose|k: int| 0 <= k < vs.len() && vs[k] == s[i]; assert(dot(r, vs[k]) <= 0); }
  let k = choose|j: int| 0 <= j < vs.len() && j < vs.len() && dot(r, #[trigger] vs[j]) < 0;
  assert(s.contains(vs[k])); let i = choose|i: int| 0 <= i < s.len() && s[i] == vs[k]; assert(dot(x, a[i]) < 0);
}
