// column elimination: column c is replaced by the combination that vanishes in the pivot row
pub open spec fn elimcol(m: Seq<Seq<int>>, row: int, col: int, c: int) -> Seq<int> { vadd(vscale(colv(m, c), -m[row][col]), vscale(colv(m, col), m[row][c])) }
pub open spec fn ecolv(m: Seq<Seq<int>>, row: int, col: int, c: int) -> Seq<int> { if c != col && m[row][c] != 0 { primitive(elimcol(m, row, col, c)) } else { colv(m, c) } }
pub open spec fn setcol(k: Seq<Seq<int>>, m: Seq<Seq<int>>, c: int, v: Seq<int>) -> bool {
  k.len() == m.len() && v.len() == m.len() && (forall|i: int| 0 <= i < m.len() ==> (#[trigger] k[i]).len() == m[i].len()) && (forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() ==> #[trigger] k[i][j] == (if j == c { v[i] } else { m[i][j] }))
}
pub open spec fn eliminated(k: Seq<Seq<int>>, m: Seq<Seq<int>>, row: int, col: int) -> bool {
  k.len() == m.len() && (forall|i: int| 0 <= i < m.len() ==> (#[trigger] k[i]).len() == m[i].len()) && (forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() ==> #[trigger] k[i][j] == ecolv(m, row, col, j)[i])
}
// the first row in which column c does not vanish
pub open spec fn fr(m: Seq<Seq<int>>, c: int) -> int { lead(colv(m, c)) }
pub open spec fn is_fr(m: Seq<Seq<int>>, c: int, r: int) -> bool { 0 <= r < m.len() && m[r][c] != 0 && forall|i: int| 0 <= i < r ==> #[trigger] m[i][c] == 0 }
pub proof fn lemma_fr(m: Seq<Seq<int>>, c: int, r: int) ensures is_fr(m, c, r) ==> fr(m, c) == r, 0 <= fr(m, c) <= m.len(), fr(m, c) < m.len() ==> is_fr(m, c, fr(m, c)),
    forall|i: int| 0 <= i < fr(m, c) ==> #[trigger] m[i][c] == 0
{
  lemma_lead(colv(m, c)); let f = fr(m, c);
  assert forall|i: int| 0 <= i < f implies #[trigger] m[i][c] == 0 by { assert(colv(m, c)[i] == 0); }
  if is_fr(m, c, r) { if f < r { assert(m[f][c] == 0); assert(colv(m, c)[f] != 0); } else if r < f { assert(colv(m, c)[r] == 0); } }
}
pub open spec fn xc(m: Seq<Seq<int>>, t: int, n: int, c: int) -> Seq<int> { Seq::new(n as nat, |k: int| m[t + k][c]) }
pub open spec fn injective_on(m: Seq<Seq<int>>, t: int, n: int) -> bool { forall|y: Seq<int>| y.len() == n && (forall|c: int| 0 <= c < n ==> #[trigger] dot(y, xc(m, t, n, c)) == 0) ==> #[trigger] all_zero(y) }
pub open spec fn row_clear(m: Seq<Seq<int>>, i: int, c: int, n: int) -> bool { forall|d: int| 0 <= d < n && d != c ==> #[trigger] m[i][d] == 0 }
// [A; -I] after some column eliminations
#[verifier::opaque]
pub open spec fn ginv(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, used: ISet<int>, row: int) -> bool {
  let t = a.len() as int;
  &&& n > 0 && m.len() == t + n && rect(m, n as nat) && rect(a, n as nat)
  &&& forall|i: int, c: int| 0 <= i < t && 0 <= c < n ==> #[trigger] m[i][c] == -dot(a[i], xc(m, t, n, c))
  &&& forall|i: int, c: int| 0 <= i < row && i < m.len() && 0 <= c < n && !used.contains(c) ==> #[trigger] m[i][c] == 0
  &&& forall|c: int| #[trigger] used.contains(c) ==> 0 <= c < n && fr(m, c) < row && fr(m, c) < m.len() && row_clear(m, fr(m, c), c, n)
  &&& forall|c: int| 0 <= c < n && !#[trigger] used.contains(c) ==> m[t + c][c] != 0 && row_clear(m, t + c, c, n)
  &&& injective_on(m, t, n)
  &&& forall|c: int| 0 <= c < n ==> row_gcd(#[trigger] colv(m, c)) <= 1
}
pub open spec fn columns_upto(n: int) -> ISet<int> { ISet::new(|c: int| 0 <= c < n) }
pub open spec fn used_set(s: Seq<u64>) -> ISet<int> { ISet::new(|c: int| 0 <= c <= u64::MAX && s.contains(c as u64)) }
// T: pivot rows above t in increasing order; L: columns whose pivot lies in the identity block
#[verifier::opaque]
pub open spec fn tinv(m: Seq<Seq<int>>, used: ISet<int>, row: int, t: int, tr: Seq<u64>, lc: Seq<u64>) -> bool {
  &&& forall|k: int, l: int| 0 <= k < l < tr.len() ==> #[trigger] tr[k] < #[trigger] tr[l]
  &&& forall|k: int| 0 <= k < tr.len() ==> (#[trigger] tr[k]) < t && exists|c: int| #[trigger] used.contains(c) && fr(m, c) == tr[k]
  &&& forall|c: int| #[trigger] used.contains(c) && fr(m, c) < t ==> tr.contains(fr(m, c) as u64)
  &&& forall|k: int, l: int| 0 <= k < l < lc.len() ==> #[trigger] lc[k] != #[trigger] lc[l]
  &&& forall|k: int| 0 <= k < lc.len() ==> used.contains(#[trigger] lc[k] as int) && fr(m, lc[k] as int) >= t
  &&& forall|c: int| #[trigger] used.contains(c) && fr(m, c) >= t ==> lc.contains(c as u64)
}
pub proof fn lemma_gshape(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, used: ISet<int>, row: int) requires ginv(a, n, m, used, row)
  ensures n > 0, m.len() == a.len() + n, rect(m, n as nat), rect(a, n as nat), forall|c: int| #[trigger] used.contains(c) ==> 0 <= c < n && 0 <= fr(m, c) < row && fr(m, c) < m.len() && is_fr(m, c, fr(m, c))
{ reveal(ginv); assert forall|c: int| #[trigger] used.contains(c) implies 0 <= fr(m, c) < m.len() && is_fr(m, c, fr(m, c)) by { lemma_fr(m, c, 0); } }
pub proof fn lemma_tinit(m: Seq<Seq<int>>, t: int) ensures tinv(m, ISet::<int>::empty(), 0, t, Seq::<u64>::empty(), Seq::<u64>::empty()) { reveal(tinv); }
// how an eliminated column relates to the old ones: g new = p old + q pivot column
pub open spec fn colrel(k: Seq<Seq<int>>, m: Seq<Seq<int>>, col: int, c: int, g: int, p: int, q: int) -> bool { g > 0 && p != 0 && forall|i: int| 0 <= i < m.len() ==> g * #[trigger] k[i][c] == p * m[i][c] + q * m[i][col] }
pub proof fn lemma_ecol(k: Seq<Seq<int>>, m: Seq<Seq<int>>, row: int, col: int, n: int, c: int) -> (r: (int, int, int))
  requires eliminated(k, m, row, col), rect(m, n as nat), 0 <= row < m.len(), 0 <= col < n, 0 <= c < n, m[row][col] != 0
  ensures colrel(k, m, col, c, r.0, r.1, r.2), c != col ==> k[row][c] == 0, c == col ==> r == (1int, 1int, 0int), c != col && m[row][c] == 0 ==> r == (1int, 1int, 0int)
{
  assert forall|i: int| 0 <= i < m.len() implies #[trigger] k[i][c] == ecolv(m, row, col, c)[i] by { assert(m[i].len() == n); }
  if c != col && m[row][c] != 0 {
    let e = elimcol(m, row, col, c); lemma_primitive(e); lemma_row_gcd(e);
    let g = if row_gcd(e) > 0 { row_gcd(e) } else { 1 }; let p = -m[row][col]; let q = m[row][c];
    assert forall|i: int| 0 <= i < m.len() implies g * #[trigger] k[i][c] == p * m[i][c] + q * m[i][col] by {
      assert(k[i][c] == primitive(e)[i]); assert(e[i] == m[i][c] * p + m[i][col] * q);
      if row_gcd(e) > 0 { assert(vscale(primitive(e), g)[i] == e[i]); }
      assert(g * k[i][c] == k[i][c] * g && p * m[i][c] == m[i][c] * p && q * m[i][col] == m[i][col] * q) by (nonlinear_arith);
    }
    let z = m[row][col]; let w = m[row][c];
    assert(g * k[row][c] == p * m[row][c] + q * m[row][col]); assert(p * w + q * z == 0) by (nonlinear_arith) requires p == -z, q == w;
    lemma_mul_zero(g, k[row][c]);
    (g, p, q)
  } else {
    assert forall|i: int| 0 <= i < m.len() implies 1 * #[trigger] k[i][c] == 1 * m[i][c] + 0 * m[i][col] by { assert(0 * m[i][col] == 0) by (nonlinear_arith); }
    (1, 1, 0)
  }
}
// one pivot step keeps the invariant
pub proof fn lemma_gstep(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, used: ISet<int>, row0: int, row: int, col: int, k: Seq<Seq<int>>)
  requires ginv(a, n, m, used, row0), 0 <= row0 <= row < m.len(), 0 <= col < n, !used.contains(col), m[row][col] != 0, eliminated(k, m, row, col),
    forall|i: int, c: int| row0 <= i < row && 0 <= c < n && !used.contains(c) ==> #[trigger] m[i][c] == 0
  ensures ginv(a, n, k, used.insert(col), row + 1), forall|c: int| #[trigger] used.contains(c) ==> fr(k, c) == fr(m, c), fr(k, col) == row
{
  reveal(ginv);
  let t = a.len() as int; let used1 = used.insert(col);
  assert(rect(k, n as nat)) by { assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]).len() == n by { assert(m[i].len() == n); } }
  assert forall|i: int| 0 <= i < row implies #[trigger] m[i][col] == 0 by {}
  // rows of the product
  assert forall|i: int, c: int| 0 <= i < t && 0 <= c < n implies #[trigger] k[i][c] == -dot(a[i], xc(k, t, n, c)) by {
    let r = lemma_ecol(k, m, row, col, n, c); lemma_xrel(k, m, t, n, col, c, r.0, r.1, r.2, a[i]);
    assert(a[i].len() == n);
    assert(r.0 * k[i][c] == r.1 * m[i][c] + r.2 * m[i][col]);
    assert(m[i][c] == -dot(a[i], xc(m, t, n, c))); assert(m[i][col] == -dot(a[i], xc(m, t, n, col)));
    let dx = dot(a[i], xc(k, t, n, c)); let du = dot(a[i], xc(m, t, n, c)); let dv = dot(a[i], xc(m, t, n, col));
    assert(r.0 * k[i][c] == r.0 * (-dx)) by (nonlinear_arith) requires r.0 * k[i][c] == r.1 * m[i][c] + r.2 * m[i][col], r.0 * dx == r.1 * du + r.2 * dv, m[i][c] == -du, m[i][col] == -dv;
    lemma_mul_cancel(r.0, k[i][c], -dx);
  }
  assert forall|i: int, c: int| 0 <= i < row + 1 && i < k.len() && 0 <= c < n && !used1.contains(c) implies #[trigger] k[i][c] == 0 by {
    let r = lemma_ecol(k, m, row, col, n, c);
    if i < row { assert(!used.contains(c)); assert(m[i][c] == 0); assert(m[i][col] == 0); assert(r.0 * k[i][c] == r.1 * m[i][c] + r.2 * m[i][col]); assert(r.1 * 0 == 0 && r.2 * 0 == 0) by (nonlinear_arith); lemma_mul_zero(r.0, k[i][c]); }
  }
  assert forall|c: int| #[trigger] used.contains(c) implies fr(k, c) == fr(m, c) && row_clear(k, fr(k, c), c, n) by {
    let f = fr(m, c); lemma_fr(m, c, f);
    let r = lemma_ecol(k, m, row, col, n, c);
    assert(is_fr(k, c, f)) by {
      assert(r.0 * k[f][c] == r.1 * m[f][c] + r.2 * m[f][col]); assert(m[f][col] == 0); assert(r.2 * 0 == 0) by (nonlinear_arith); lemma_mul_ne(r.1, m[f][c]);
      if k[f][c] == 0 { assert(r.0 * 0 == 0) by (nonlinear_arith); }
      assert forall|i: int| 0 <= i < f implies #[trigger] k[i][c] == 0 by {
        assert(m[i][c] == 0); assert(m[i][col] == 0); assert(r.0 * k[i][c] == r.1 * m[i][c] + r.2 * m[i][col]); assert(r.1 * 0 == 0 && r.2 * 0 == 0) by (nonlinear_arith); lemma_mul_zero(r.0, k[i][c]);
      }
    }
    lemma_fr(k, c, f);
    lemma_clear(k, m, row, col, n, f, c);
  }
  lemma_fr(k, col, row);
  assert(is_fr(k, col, row)) by {
    let r = lemma_ecol(k, m, row, col, n, col);
    assert(r.0 * k[row][col] == r.1 * m[row][col] + r.2 * m[row][col]); assert(0 * m[row][col] == 0) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < row implies #[trigger] k[i][col] == 0 by { assert(m[i][col] == 0); assert(r.0 * k[i][col] == r.1 * m[i][col] + r.2 * m[i][col]); assert(0 * m[i][col] == 0) by (nonlinear_arith); }
  }
  assert(row_clear(k, row, col, n)) by { assert forall|d: int| 0 <= d < n && d != col implies #[trigger] k[row][d] == 0 by { let r = lemma_ecol(k, m, row, col, n, d); } }
  assert forall|c: int| #[trigger] used1.contains(c) implies 0 <= c < n && fr(k, c) < row + 1 && fr(k, c) < k.len() && row_clear(k, fr(k, c), c, n) by { if c != col { assert(used.contains(c)); } }
  assert forall|c: int| 0 <= c < n && !#[trigger] used1.contains(c) implies k[t + c][c] != 0 && row_clear(k, t + c, c, n) by {
    assert(!used.contains(c)); let r = lemma_ecol(k, m, row, col, n, c); let i = t + c;
    assert(row_clear(m, i, c, n)); assert(m[i][col] == 0); assert(r.0 * k[i][c] == r.1 * m[i][c] + r.2 * m[i][col]); assert(r.2 * 0 == 0) by (nonlinear_arith); lemma_mul_ne(r.1, m[i][c]);
    if k[i][c] == 0 { assert(r.0 * 0 == 0) by (nonlinear_arith); }
    lemma_clear(k, m, row, col, n, i, c);
  }
  assert(injective_on(k, t, n)) by {
    assert forall|y: Seq<int>| y.len() == n && (forall|c: int| 0 <= c < n ==> #[trigger] dot(y, xc(k, t, n, c)) == 0) implies #[trigger] all_zero(y) by {
      let r0 = lemma_ecol(k, m, row, col, n, col);
      lemma_xrel(k, m, t, n, col, col, 1, 1, 0, y); assert(dot(y, xc(k, t, n, col)) == 0);
      assert(0 * dot(y, xc(m, t, n, col)) == 0) by (nonlinear_arith); assert(dot(y, xc(m, t, n, col)) == 0);
      assert forall|c: int| 0 <= c < n implies #[trigger] dot(y, xc(m, t, n, c)) == 0 by {
        let r = lemma_ecol(k, m, row, col, n, c); lemma_xrel(k, m, t, n, col, c, r.0, r.1, r.2, y); assert(dot(y, xc(k, t, n, c)) == 0);
        assert(r.0 * 0 == 0 && r.2 * 0 == 0) by (nonlinear_arith); lemma_mul_zero(r.1, dot(y, xc(m, t, n, c)));
      }
    }
  }
  assert forall|c: int| 0 <= c < n implies row_gcd(#[trigger] colv(k, c)) <= 1 by {
    assert(colv(k, c) =~= ecolv(m, row, col, c)) by {
      if c != col && m[row][c] != 0 { lemma_primitive(elimcol(m, row, col, c)); }
      assert forall|i: int| 0 <= i < k.len() implies #[trigger] colv(k, c)[i] == ecolv(m, row, col, c)[i] by { assert(m[i].len() == n); assert(k[i][c] == ecolv(m, row, col, c)[i]); }
    }
    lemma_primitive(elimcol(m, row, col, c)); assert(row_gcd(colv(m, c)) <= 1);
  }
}
pub proof fn lemma_xrel(k: Seq<Seq<int>>, m: Seq<Seq<int>>, t: int, n: int, col: int, c: int, g: int, p: int, q: int, y: Seq<int>)
  requires colrel(k, m, col, c, g, p, q), k.len() == m.len(), m.len() == t + n, t >= 0, n >= 0, y.len() == n
  ensures g * dot(y, xc(k, t, n, c)) == p * dot(y, xc(m, t, n, c)) + q * dot(y, xc(m, t, n, col))
{
  let w = xc(k, t, n, c); let u = xc(m, t, n, c); let v = xc(m, t, n, col);
  assert forall|j: int| 0 <= j < y.len() implies g * #[trigger] w[j] == p * u[j] + q * v[j] by { assert(w[j] == k[t + j][c]); }
  lemma_dot_comb2(y, u, v, w, g, p, q);
}
// a row that vanishes off column c, c not the pivot column, keeps doing so
pub proof fn lemma_clear(k: Seq<Seq<int>>, m: Seq<Seq<int>>, row: int, col: int, n: int, i: int, c: int)
  requires eliminated(k, m, row, col), rect(m, n as nat), 0 <= row < m.len(), 0 <= col < n, m[row][col] != 0, 0 <= i < m.len(), 0 <= c < n, c != col, row_clear(m, i, c, n)
  ensures row_clear(k, i, c, n)
{
  assert forall|d: int| 0 <= d < n && d != c implies #[trigger] k[i][d] == 0 by {
    let r = lemma_ecol(k, m, row, col, n, d);
    assert(m[i][d] == 0); assert(m[i][col] == 0); assert(r.0 * k[i][d] == r.1 * m[i][d] + r.2 * m[i][col]); assert(r.1 * 0 == 0 && r.2 * 0 == 0) by (nonlinear_arith); lemma_mul_zero(r.0, k[i][d]);
  }
}
pub proof fn lemma_tstep(m: Seq<Seq<int>>, k: Seq<Seq<int>>, used: ISet<int>, row0: int, row: int, t: int, n: int, col: int, tr: Seq<u64>, lc: Seq<u64>, tr1: Seq<u64>, lc1: Seq<u64>)
  requires tinv(m, used, row0, t, tr, lc), row0 <= row, !used.contains(col), 0 <= col <= u64::MAX, 0 <= row <= u64::MAX, forall|c: int| #[trigger] used.contains(c) ==> fr(k, c) == fr(m, c) && 0 <= c <= u64::MAX && 0 <= fr(m, c) < row0, fr(k, col) == row,
    row >= t ==> tr1 == tr && lc1 == lc.push(col as u64), row < t ==> tr1 == tr.push(row as u64) && lc1 == lc
  ensures tinv(k, used.insert(col), row + 1, t, tr1, lc1)
{
  reveal(tinv);
  let u1 = used.insert(col);
  assert forall|x: int, l: int| 0 <= x < l < tr1.len() implies #[trigger] tr1[x] < #[trigger] tr1[l] by { if row < t && l == tr.len() { let c = choose|c: int| #[trigger] used.contains(c) && fr(m, c) == tr[x]; assert(tr[x] < row0); } else { assert(tr[x] < tr[l]); } }
  assert forall|x: int| 0 <= x < tr1.len() implies (#[trigger] tr1[x]) < t && exists|c: int| #[trigger] u1.contains(c) && fr(k, c) == tr1[x] by {
    if x < tr.len() { assert(tr[x] == tr1[x]); let c = choose|c: int| #[trigger] used.contains(c) && fr(m, c) == tr[x]; assert(u1.contains(c)); } else { assert(u1.contains(col)); }
  }
  assert forall|c: int| #[trigger] u1.contains(c) && fr(k, c) < t implies tr1.contains(fr(k, c) as u64) by {
    if c != col { assert(used.contains(c)); assert(tr.contains(fr(m, c) as u64)); let i = choose|i: int| 0 <= i < tr.len() && tr[i] == fr(m, c) as u64; assert(tr1[i] == tr[i]); }
    else { assert(tr1[tr.len() as int] == row as u64); }
  }
  assert forall|x: int, l: int| 0 <= x < l < lc1.len() implies #[trigger] lc1[x] != #[trigger] lc1[l] by { if row >= t && l == lc.len() { assert(used.contains(lc[x] as int)); } else { assert(lc[x] != lc[l]); } }
  assert forall|x: int| 0 <= x < lc1.len() implies u1.contains(#[trigger] lc1[x] as int) && fr(k, lc1[x] as int) >= t by { if x < lc.len() { assert(used.contains(lc[x] as int)); assert(lc1[x] == lc[x]); } else { assert(u1.contains(col)); } }
  assert forall|c: int| #[trigger] u1.contains(c) && fr(k, c) >= t implies lc1.contains(c as u64) by {
    if c != col { assert(used.contains(c)); assert(lc.contains(c as u64)); let i = choose|i: int| 0 <= i < lc.len() && lc[i] == c as u64; assert(lc1[i] == lc[i]); }
    else { assert(lc1[lc.len() as int] == col as u64); }
  }
}
pub proof fn lemma_ginit(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>)
  requires n > 0, rect(a, n as nat), m.len() == a.len() + n, m.take(a.len() as int) =~= a, forall|j: int| 0 <= j < n ==> #[trigger] m[a.len() + j] =~= neg_unit(n, j)
  ensures ginv(a, n, m, ISet::<int>::empty(), 0)
{
  reveal(ginv);
  let t = a.len() as int;
  assert(rect(m, n as nat)) by { assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).len() == n by { if i < t { assert(m.take(t)[i] == a[i]); } else { assert(m[t + (i - t)] =~= neg_unit(n, i - t)); } } }
  assert forall|c: int, j: int| 0 <= c < n && 0 <= j < n implies #[trigger] m[t + j][c] == (if j == c { -1int } else { 0int }) by { assert(m[t + j] =~= neg_unit(n, j)); }
  assert forall|y: Seq<int>, c: int| y.len() == n && 0 <= c < n implies #[trigger] dot(y, xc(m, t, n, c)) == -y[c] by { lemma_dot_single(y, xc(m, t, n, c), c); assert(y[c] * (-1) == -y[c]); }
  assert forall|i: int, c: int| 0 <= i < t && 0 <= c < n implies #[trigger] m[i][c] == -dot(a[i], xc(m, t, n, c)) by { assert(m.take(t)[i] == a[i]); assert(a[i].len() == n); }
  assert(injective_on(m, t, n)) by {
    assert forall|y: Seq<int>| y.len() == n && (forall|c: int| 0 <= c < n ==> #[trigger] dot(y, xc(m, t, n, c)) == 0) implies #[trigger] all_zero(y) by { assert forall|c: int| 0 <= c < n implies #[trigger] y[c] == 0 by { assert(dot(y, xc(m, t, n, c)) == 0); } }
  }
  assert forall|c: int| 0 <= c < n implies row_gcd(#[trigger] colv(m, c)) <= 1 by { lemma_row_gcd(colv(m, c)); let g = row_gcd(colv(m, c)); assert(colv(m, c)[t + c] == -1); assert(divides(g, -1)); let q = choose|q: int| #[trigger] (g * q) == -1; assert(g <= 1) by (nonlinear_arith) requires g * q == -1, g >= 0; }
  assert forall|c: int| 0 <= c < n implies m[t + c][c] != 0 && #[trigger] row_clear(m, t + c, c, n) by {}
}
// nothing is left to pivot on: every column is used
pub proof fn lemma_gdone(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, used: ISet<int>, row: int)
  requires ginv(a, n, m, used, row), forall|i: int, c: int| row <= i < m.len() && 0 <= c < n && !used.contains(c) ==> #[trigger] m[i][c] == 0
  ensures used =~= columns_upto(n), ginv(a, n, m, columns_upto(n), a.len() + n)
{
  reveal(ginv);
  let t = a.len() as int;
  assert forall|c: int| 0 <= c < n implies used.contains(c) by { if !used.contains(c) { assert(m[t + c][c] != 0); if t + c < row { assert(m[t + c][c] == 0); } } }
  assert(used =~= columns_upto(n));
  assert forall|c: int| #[trigger] columns_upto(n).contains(c) implies fr(m, c) < t + n && row_clear(m, fr(m, c), c, n) by { assert(used.contains(c)); }
}
// flipping the sign of a column
pub open spec fn flipped(k: Seq<Seq<int>>, m: Seq<Seq<int>>, col: int, n: int) -> bool { k.len() == m.len() && rect(k, n as nat) && forall|i: int, c: int| 0 <= i < m.len() && 0 <= c < n ==> #[trigger] k[i][c] == (if c == col { -m[i][c] } else { m[i][c] }) }
pub proof fn lemma_flip(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, k: Seq<Seq<int>>, used: ISet<int>, row: int, col: int)
  requires ginv(a, n, m, used, row), flipped(k, m, col, n), 0 <= col < n
  ensures ginv(a, n, k, used, row), forall|c: int| 0 <= c < n ==> #[trigger] fr(k, c) == fr(m, c),
    forall|c: int| 0 <= c < n && used.contains(c) ==> #[trigger] k[fr(k, c)][c] == (if c == col { -m[fr(m, c)][c] } else { m[fr(m, c)][c] })
{
  reveal(ginv);
  let t = a.len() as int;
  assert forall|c: int| 0 <= c < n implies #[trigger] fr(k, c) == fr(m, c) by {
    let f = fr(m, c); lemma_fr(m, c, f); lemma_fr(k, c, f); lemma_fr(m, c, 0); lemma_fr(k, c, fr(k, c));
    if f < m.len() { assert(is_fr(k, c, f)) by { assert forall|i: int| 0 <= i < f implies #[trigger] k[i][c] == 0 by { assert(m[i][c] == 0); } } }
    else if fr(k, c) < k.len() { assert(m[fr(k, c)][c] == 0); assert(k[fr(k, c)][c] != 0); }
  }
  assert forall|y: Seq<int>, c: int| y.len() == n && 0 <= c < n implies #[trigger] dot(y, xc(k, t, n, c)) == (if c == col { -dot(y, xc(m, t, n, c)) } else { dot(y, xc(m, t, n, c)) }) by {
    let w = xc(k, t, n, c); let u = xc(m, t, n, c); let p = if c == col { -1int } else { 1int };
    assert forall|j: int| 0 <= j < y.len() implies 1 * #[trigger] w[j] == p * u[j] + 0 * u[j] by { assert(k[t + j][c] == w[j]); let uj = u[j]; assert(0 * uj == 0) by (nonlinear_arith); assert(1 * uj == uj && (-1) * uj == -uj) by (nonlinear_arith); assert(m[t + j][c] == uj); }
    lemma_dot_comb2(y, u, u, w, 1, p, 0); assert(0 * dot(y, u) == 0) by (nonlinear_arith);
  }
  assert forall|i: int, c: int| 0 <= i < t && 0 <= c < n implies #[trigger] k[i][c] == -dot(a[i], xc(k, t, n, c)) by { assert(m[i][c] == -dot(a[i], xc(m, t, n, c))); assert(a[i].len() == n); assert(dot(a[i], xc(k, t, n, c)) == (if c == col { -dot(a[i], xc(m, t, n, c)) } else { dot(a[i], xc(m, t, n, c)) })); }
  assert forall|i: int, c: int| 0 <= i < row && i < k.len() && 0 <= c < n && !used.contains(c) implies #[trigger] k[i][c] == 0 by { assert(m[i][c] == 0); }
  assert forall|i: int, c: int| 0 <= i < m.len() && 0 <= c < n && row_clear(m, i, c, n) implies #[trigger] row_clear(k, i, c, n) by { assert forall|d: int| 0 <= d < n && d != c implies #[trigger] k[i][d] == 0 by { assert(m[i][d] == 0); } }
  assert forall|c: int| #[trigger] used.contains(c) implies 0 <= c < n && fr(k, c) < row && fr(k, c) < k.len() && row_clear(k, fr(k, c), c, n) by { lemma_fr(m, c, 0); assert(fr(k, c) == fr(m, c)); assert(row_clear(k, fr(m, c), c, n)); }
  assert forall|c: int| 0 <= c < n && !#[trigger] used.contains(c) implies k[t + c][c] != 0 && row_clear(k, t + c, c, n) by { assert(m[t + c][c] != 0); assert(row_clear(k, t + c, c, n)); }
  assert(injective_on(k, t, n)) by {
    assert forall|y: Seq<int>| y.len() == n && (forall|c: int| 0 <= c < n ==> #[trigger] dot(y, xc(k, t, n, c)) == 0) implies #[trigger] all_zero(y) by {
      assert forall|c: int| 0 <= c < n implies #[trigger] dot(y, xc(m, t, n, c)) == 0 by { assert(dot(y, xc(k, t, n, c)) == 0); }
    }
  }
  assert forall|c: int| 0 <= c < n && used.contains(c) implies #[trigger] k[fr(k, c)][c] == (if c == col { -m[fr(m, c)][c] } else { m[fr(m, c)][c] }) by { lemma_fr(m, c, 0); }
  assert forall|c: int| 0 <= c < n implies row_gcd(#[trigger] colv(k, c)) <= 1 by {
    assert(row_gcd(colv(m, c)) <= 1);
    lemma_gcd_pm(colv(m, c), colv(k, c));
  }
}
pub proof fn lemma_tkeep(m: Seq<Seq<int>>, k: Seq<Seq<int>>, used: ISet<int>, row: int, t: int, tr: Seq<u64>, lc: Seq<u64>)
  requires tinv(m, used, row, t, tr, lc), forall|c: int| #[trigger] used.contains(c) ==> fr(k, c) == fr(m, c)
  ensures tinv(k, used, row, t, tr, lc)
{
  reveal(tinv);
  assert forall|x: int| 0 <= x < tr.len() implies (#[trigger] tr[x]) < t && exists|c: int| #[trigger] used.contains(c) && fr(k, c) == tr[x] by { let c = choose|c: int| #[trigger] used.contains(c) && fr(m, c) == tr[x]; assert(fr(k, c) == tr[x]); }
}
pub proof fn lemma_gdone_t(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, used: ISet<int>, row: int, tr: Seq<u64>, lc: Seq<u64>)
  requires ginv(a, n, m, used, row), tinv(m, used, row, a.len() as int, tr, lc), forall|i: int, c: int| row <= i < m.len() && 0 <= c < n && !used.contains(c) ==> #[trigger] m[i][c] == 0
  ensures used =~= columns_upto(n), ginv(a, n, m, columns_upto(n), a.len() + n), tinv(m, columns_upto(n), a.len() + n, a.len() as int, tr, lc)
{ lemma_gdone(a, n, m, used, row); assert(used == columns_upto(n)); reveal(tinv); }
pub proof fn lemma_gcd_pm(s: Seq<int>, r: Seq<int>) requires s.len() == r.len(), row_gcd(s) <= 1, forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == s[i] || r[i] == -s[i] ensures row_gcd(r) <= 1
{
  lemma_row_gcd(s); lemma_row_gcd(r); let g = row_gcd(r);
  assert forall|i: int| 0 <= i < s.len() implies divides(g, #[trigger] s[i]) by { assert(divides(g, r[i])); lemma_divides_neg(g, r[i]); }
  assert(divides(g, row_gcd(s)));
  let h = row_gcd(s); let q = choose|q: int| #[trigger] (g * q) == h;
  if h == 1 { assert(g <= 1) by (nonlinear_arith) requires g * q == 1, g >= 0; }
  else { assert(all_zero(r)) by { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == 0 by { assert(s[i] == 0); } } }
}
// the finished elimination: inverse-like columns, pivots, signs
pub open spec fn gfin(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>) -> bool {
  ginv(a, n, m, columns_upto(n), a.len() + n) && tinv(m, columns_upto(n), a.len() + n, a.len() as int, tr, lc) && forall|c: int| 0 <= c < n ==> m[#[trigger] fr(m, c)][c] > 0
}
pub open spec fn starts_as(m: Seq<Seq<int>>, a: Seq<Seq<int>>, n: int) -> bool { m.len() == a.len() + n && m.take(a.len() as int) =~= a && forall|j: int| 0 <= j < n ==> #[trigger] m[a.len() + j] =~= neg_unit(n, j) }
pub open spec fn top(m: Seq<Seq<int>>) -> Seq<Seq<int>> { m.take(m.len() - m[0].len()) }
