// row elimination with deletion of dependent rows
pub open spec fn ints(s: Seq<u64>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] as int) }
#[verifier::opaque]
pub open spec fn dinv(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>) -> bool {
  &&& n >= 0 && rect(m, n as nat) && rect(a, n as nat) && piv.len() <= m.len() <= a.len()
  &&& forall|p: int| piv.len() <= p < m.len() ==> #[trigger] m[p] == a[a.len() - m.len() + p]
  &&& triangular(m.take(piv.len() as int), ints(piv), n)
  &&& forall|k: int| 0 <= k < piv.len() ==> insp(a, #[trigger] m[k])
  &&& forall|p: int| 0 <= p < a.len() - m.len() + piv.len() ==> insp(m.take(piv.len() as int), #[trigger] a[p])
}
#[verifier::opaque]
pub open spec fn einv(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>, j: int, cur: Seq<int>) -> bool {
  &&& cur.len() == n && 0 <= j <= piv.len() && insp(a, cur)
  &&& forall|l: int| 0 <= l < j ==> cur[#[trigger] piv[l] as int] == 0
  &&& forall|b: Seq<Seq<int>>| (forall|l: int| 0 <= l < j ==> insp(b, #[trigger] m[l])) && #[trigger] insp(b, cur) ==> insp(b, a[a.len() - m.len() + piv.len()])
}
pub proof fn lemma_dstart(a: Seq<Seq<int>>, n: int) requires n >= 0, rect(a, n as nat) ensures dinv(a, n, a, Seq::<u64>::empty())
{ reveal(dinv); assert(triangular(a.take(0), ints(Seq::<u64>::empty()), n)); }
pub proof fn lemma_dshape(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>) requires dinv(a, n, m, piv)
  ensures n >= 0, rect(m, n as nat), piv.len() <= m.len() <= a.len(), forall|k: int| 0 <= k < piv.len() ==> 0 <= #[trigger] piv[k] < n && m[k][piv[k] as int] != 0
{ reveal(dinv); assert forall|k: int| 0 <= k < piv.len() implies 0 <= #[trigger] piv[k] < n && m[k][piv[k] as int] != 0 by { assert(ints(piv)[k] == piv[k]); assert(m.take(piv.len() as int)[k] == m[k]); } }
pub proof fn lemma_estart(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>) requires dinv(a, n, m, piv), piv.len() < m.len() ensures einv(a, n, m, piv, 0, m[piv.len() as int])
{ reveal(dinv); reveal(einv); let q = a.len() - m.len() + piv.len(); assert(m[piv.len() as int] == a[q]); lemma_insp_row(a, q); }
pub proof fn lemma_eskip(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>, j: int, cur: Seq<int>) requires einv(a, n, m, piv, j, cur), 0 <= j < piv.len(), cur[piv[j] as int] == 0 ensures einv(a, n, m, piv, j + 1, cur)
{
  reveal(einv);
  assert forall|b: Seq<Seq<int>>| (forall|l: int| 0 <= l < j + 1 ==> insp(b, #[trigger] m[l])) && #[trigger] insp(b, cur) implies insp(b, a[a.len() - m.len() + piv.len()]) by { }
}
pub proof fn lemma_estep(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>, j: int, cur: Seq<int>, new: Seq<int>)
  requires dinv(a, n, m, piv), einv(a, n, m, piv, j, cur), 0 <= j < piv.len(), new =~= primitive(vadd(vscale(cur, -m[j][piv[j] as int]), vscale(m[j], cur[piv[j] as int])))
  ensures einv(a, n, m, piv, j + 1, new)
{
  lemma_dshape(a, n, m, piv); reveal(dinv); reveal(einv); let p = piv[j] as int;
  assert(m[j].len() == n); lemma_dimstep(a, n, cur, m[j], p, new);
  assert forall|l: int| 0 <= l < j + 1 implies new[#[trigger] piv[l] as int] == 0 by {
    if l < j { let q = piv[l] as int; assert(cur[q] == 0); let t = m.take(piv.len() as int); assert(t[j][ints(piv)[l]] == 0); assert(t[j] == m[j]); }
  }
  assert forall|b: Seq<Seq<int>>| (forall|l: int| 0 <= l < j + 1 ==> insp(b, #[trigger] m[l])) && #[trigger] insp(b, new) implies insp(b, a[a.len() - m.len() + piv.len()]) by { assert(insp(b, m[j])); assert(insp(b, cur)); }
}
pub proof fn lemma_ezero(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>, cur: Seq<int>)
  requires dinv(a, n, m, piv), piv.len() < m.len(), einv(a, n, m, piv, piv.len() as int, cur), all_zero(cur)
  ensures dinv(a, n, m.remove(piv.len() as int), piv)
{
  reveal(dinv); reveal(einv); let i = piv.len() as int; let k = m.remove(i); let b = m.take(i); let q = a.len() - m.len() + i;
  assert(k.take(i) =~= b); lemma_insp_zero(b, cur);
  assert forall|l: int| 0 <= l < i implies insp(b, #[trigger] m[l]) by { lemma_insp_row(b, l); assert(b[l] == m[l]); }
  assert(insp(b, a[q]));
  assert forall|p: int| 0 <= p < a.len() - k.len() + i implies insp(k.take(i), #[trigger] a[p]) by { if p < q { assert(insp(b, a[p])); } }
  assert forall|p: int| i <= p < k.len() implies #[trigger] k[p] == a[a.len() - k.len() + p] by { assert(k[p] == m[p + 1]); }
  assert forall|p: int| 0 <= p < i implies insp(a, #[trigger] k[p]) by { assert(k[p] == m[p]); }
  assert forall|p: int| 0 <= p < k.len() implies (#[trigger] k[p]).len() == n by { if p < i { assert(k[p] == m[p]); } else { assert(k[p] == m[p + 1]); } }
}
pub proof fn lemma_epush(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>, cur: Seq<int>, p: u64)
  requires dinv(a, n, m, piv), piv.len() < m.len(), einv(a, n, m, piv, piv.len() as int, cur), p < n, cur[p as int] != 0
  ensures dinv(a, n, m.update(piv.len() as int, cur), piv.push(p))
{
  reveal(dinv); reveal(einv); let i = piv.len() as int; let k = m.update(i, cur); let b = m.take(i); let b1 = k.take(i + 1); let q = a.len() - m.len() + i; let pv = piv.push(p);
  assert(b1 =~= b.push(cur));
  assert forall|l: int| 0 <= l < i implies insp(b1, #[trigger] m[l]) by { lemma_insp_row(b1, l); assert(b1[l] == m[l]); }
  lemma_insp_row(b1, i); assert(b1[i] == cur); assert(insp(b1, a[q]));
  assert forall|r: int| 0 <= r < a.len() - k.len() + i + 1 implies insp(b1, #[trigger] a[r]) by { if r < q { assert(insp(b, a[r])); lemma_insp_push(b, cur, a[r]); } }
  assert forall|r: int| 0 <= r < pv.len() implies insp(a, #[trigger] k[r]) by { if r < i { assert(k[r] == m[r]); } }
  assert(triangular(b1, ints(pv), n)) by {
    assert forall|l: int| 0 <= l < b1.len() implies 0 <= #[trigger] ints(pv)[l] < n && b1[l][ints(pv)[l]] != 0 by { if l < i { assert(ints(pv)[l] == ints(piv)[l]); assert(b1[l] == b[l]); } }
    assert forall|l: int, r: int| 0 <= l < r < b1.len() implies #[trigger] b1[r][#[trigger] ints(pv)[l]] == 0 by { if r < i { assert(ints(pv)[l] == ints(piv)[l]); assert(b1[r] == b[r]); } else { assert(cur[piv[l] as int] == 0); } }
  }
  assert forall|r: int| i + 1 <= r < k.len() implies #[trigger] k[r] == a[a.len() - k.len() + r] by { assert(k[r] == m[r]); }
}
pub proof fn lemma_dend(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, piv: Seq<u64>) requires dinv(a, n, m, piv), piv.len() == m.len() ensures is_rank(piv.len() as int, a, n as nat), piv.len() <= a.len()
{ reveal(dinv); assert(m.take(piv.len() as int) =~= m); lemma_triangular(m, ints(piv), n); assert(is_basis(m, a, n as nat)); }
pub proof fn lemma_starts(m: Seq<Seq<int>>, a: Seq<Seq<int>>)
  requires a.len() > 0, a[0].len() > 0, rect(a, a[0].len()), m.len() == a.len() + a[0].len(), m.take(a.len() as int) =~= a, forall|j: int| 0 <= j < a[0].len() ==> #[trigger] m[a.len() + j] =~= neg_unit(a[0].len() as int, j)
  ensures m[0] == a[0], rect(m, a[0].len()), top(m) == a, starts_as(m, a, a[0].len() as int)
{
  assert(m.take(a.len() as int)[0] == m[0]);
  assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).len() == a[0].len() by { if i < a.len() { assert(m.take(a.len() as int)[i] == m[i]); assert(a[i].len() == a[0].len()); } else { let j = i - a.len(); assert(m[a.len() + j] =~= neg_unit(a[0].len() as int, j)); } }
}
pub proof fn lemma_indices(a: Seq<Seq<int>>, n: int, m: Seq<Seq<int>>, tr: Seq<u64>, lc: Seq<u64>, ind: Seq<u64>)
  requires gfin(a, n, m, tr, lc), n <= u64::MAX, a.len() <= u64::MAX, ind == std_sort(lc).reverse()
  ensures descending(ind, n), ind.no_duplicates(), forall|x: u64| #[trigger] ind.contains(x) <==> lc.contains(x), ind.len() == lc.len()
{
  lemma_tcol(a, n, m, tr, lc); axiom_std_sort(lc); let s = std_sort(lc);
  assert(lc.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < lc.len() && 0 <= j < lc.len() && i != j implies lc[i] != lc[j] by { if i < j { assert(lc[i] != lc[j]); } else { assert(lc[j] != lc[i]); } } }
  lemma_sort_distinct(lc);
  assert forall|x: u64| #[trigger] ind.contains(x) <==> lc.contains(x) by {
    if ind.contains(x) { let i = choose|i: int| 0 <= i < ind.len() && ind[i] == x; assert(s[s.len() - 1 - i] == x); assert(s.contains(x)); }
    if lc.contains(x) { assert(s.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(ind[s.len() - 1 - i] == x); }
  }
  assert forall|i: int, j: int| 0 <= i < j < ind.len() implies #[trigger] ind[i] > #[trigger] ind[j] by { assert(s[s.len() - 1 - j] < s[s.len() - 1 - i]); }
  assert forall|i: int| 0 <= i < ind.len() implies #[trigger] ind[i] < n by { assert(ind.contains(ind[i])); let k = choose|k: int| 0 <= k < lc.len() && lc[k] == ind[i]; assert(lc[k] < n); }
  if ind.len() > 0 { lemma_descending(ind, n, 0); } else { assert(ind.no_duplicates()); }
}
