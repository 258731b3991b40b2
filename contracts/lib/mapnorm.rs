// normalisation of maps modulo equations
pub open spec fn no_term(img: Seq<(u64, i32)>, c: int) -> bool { forall|k: int| 0 <= k < img.len() ==> (#[trigger] img[k]).0 != c }
pub open spec fn absent(m: Seq<Seq<(u64, i32)>>, c: int) -> bool { forall|i: int| 0 <= i < m.len() ==> no_term(#[trigger] m[i], c) }
pub open spec fn ascending(img: Seq<(u64, i32)>) -> bool { forall|k: int, l: int| 0 <= k < l < img.len() ==> (#[trigger] img[k]).0 < (#[trigger] img[l]).0 }
// non-zero equations, each of them zero where an earlier one has its leading coefficient
pub open spec fn echelon(eqs: Seq<Seq<int>>, n: int) -> bool {
  &&& rect(eqs, n as nat)
  &&& forall|k: int| 0 <= k < eqs.len() ==> 0 <= lead(#[trigger] eqs[k]) < n
  &&& forall|k: int, l: int| 0 <= k < l < eqs.len() ==> eqs[l][lead(#[trigger] eqs[k])] == 0 && (#[trigger] eqs[l]).len() == n
}
pub open spec fn is_elim(eqs: Seq<Seq<int>>, c: int) -> bool { exists|k: int| 0 <= k < eqs.len() && lead(#[trigger] eqs[k]) == c }
// every image is s times the old one on the solutions of the equations
pub open spec fn scaled_on(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, s: int, eqs: Seq<Seq<int>>) -> bool {
  s > 0 && m.len() == o.len() && forall|i: int, x: Seq<int>| 0 <= i < m.len() && x.len() == m.len() && solves(x, eqs) ==> #[trigger] form(m[i], x) == s * form(o[i], x) }
pub open spec fn equivalent(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, eqs: Seq<Seq<int>>) -> bool { exists|s: int| scaled_on(m, o, s, eqs) }
pub open spec fn same_empty(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>) -> bool { forall|i: int| 0 <= i < m.len() && o[i].len() == 0 ==> (#[trigger] m[i]).len() == 0 }
pub proof fn lemma_form_push(img: Seq<(u64, i32)>, t: (u64, i32), x: Seq<int>) ensures form(img.push(t), x) == form(img, x) + t.1 * x[t.0 as int] { assert(img.push(t).drop_last() =~= img); }
pub proof fn lemma_form_remove(img: Seq<(u64, i32)>, k: int, x: Seq<int>) requires 0 <= k < img.len() ensures form(img, x) == form(img.remove(k), x) + img[k].1 * x[img[k].0 as int] decreases img.len()
{
  let n = img.len() - 1;
  if k == n { assert(img.remove(k) =~= img.drop_last()); }
  else { lemma_form_remove(img.drop_last(), k, x); assert(img.remove(k).drop_last() =~= img.drop_last().remove(k)); assert(img.remove(k)[n - 1] == img[n]); }
}
pub proof fn lemma_form_update(img: Seq<(u64, i32)>, k: int, f: i32, x: Seq<int>) requires 0 <= k < img.len() ensures form(img.update(k, (img[k].0, f)), x) == form(img, x) + (f - img[k].1) * x[img[k].0 as int]
{
  let u = img.update(k, (img[k].0, f)); lemma_form_remove(img, k, x); lemma_form_remove(u, k, x); assert(u.remove(k) =~= img.remove(k));
  let a = f as int; let b = img[k].1 as int; let c = x[img[k].0 as int]; assert((a - b) * c == a * c - b * c) by (nonlinear_arith);
}
pub proof fn lemma_form_permuted(s: Seq<(u64, i32)>, t: Seq<(u64, i32)>, x: Seq<int>) requires s.to_multiset() == t.to_multiset() ensures form(s, x) == form(t, x) decreases s.len()
{
  s.to_multiset_ensures(); t.to_multiset_ensures();
  if s.len() > 0 {
    let l = s[s.len() - 1]; assert(s.contains(l)); assert(s.to_multiset().count(l) > 0); assert(t.to_multiset().count(l) > 0); assert(t.contains(l));
    let k = choose|k: int| 0 <= k < t.len() && t[k] == l; let a = s.drop_last(); let b = t.remove(k);
    assert(a =~= s.remove(s.len() - 1));
    assert(a.to_multiset() =~= b.to_multiset()); lemma_form_permuted(a, b, x); lemma_form_remove(t, k, x);
  }
}
// one image while an equation is substituted: its first k terms are done, and of term k the coefficients before j
pub open spec fn upto(e: Seq<int>, x: Seq<int>, j: int) -> int { dot(e.take(j), x.take(j)) }
pub open spec fn part(w: Seq<(u64, i32)>, img: Seq<(u64, i32)>, k: int, e: Seq<int>, p: int, sg: int) -> bool {
  &&& in_range(w, e.len() as int) && no_term(w, p)
  &&& forall|c: int| 0 <= c < e.len() && e[c] == 0 && #[trigger] no_term(img, c) ==> no_term(w, c)
  &&& k == 0 ==> w.len() == 0
  &&& forall|x: Seq<int>| x.len() == e.len() && dot(e, x) == 0 ==> #[trigger] form(w, x) == sg * e[p] * form(img.take(k), x)
}
pub open spec fn part2(w: Seq<(u64, i32)>, v: Seq<(u64, i32)>, img: Seq<(u64, i32)>, f: int, e: Seq<int>, p: int, j: int) -> bool {
  &&& in_range(w, e.len() as int) && no_term(w, p)
  &&& forall|c: int| 0 <= c < e.len() && e[c] == 0 && #[trigger] no_term(img, c) ==> no_term(w, c)
  &&& forall|x: Seq<int>| x.len() == e.len() ==> #[trigger] form(w, x) == form(v, x) + f * (upto(e, x, j) - e[p] * x[p])
}
pub proof fn lemma_upto_step(e: Seq<int>, x: Seq<int>, j: int) requires 0 <= j < e.len(), x.len() == e.len() ensures upto(e, x, j + 1) == upto(e, x, j) + e[j] * x[j]
{ lemma_dot_prefix(e.take(j + 1), x.take(j + 1)); assert(e.take(j + 1).drop_last() =~= e.take(j)); assert(x.take(j + 1).drop_last() =~= x.take(j)); }
pub proof fn lemma_upto_lead(e: Seq<int>, x: Seq<int>, p: int) requires p == lead(e), 0 <= p < e.len(), x.len() == e.len() ensures upto(e, x, p + 1) == e[p] * x[p]
{ lemma_lead(e); lemma_upto_step(e, x, p); assert(all_zero(e.take(p))); lemma_dot_zero(e.take(p), x.take(p)); }
pub proof fn lemma_part2_init(v: Seq<(u64, i32)>, img: Seq<(u64, i32)>, k: int, f: int, e: Seq<int>, p: int, sg: int) requires part(v, img, k, e, p, sg), p == lead(e), 0 <= p < e.len() ensures part2(v, v, img, f, e, p, p + 1)
{ assert forall|x: Seq<int>| x.len() == e.len() implies #[trigger] form(v, x) == form(v, x) + f * (upto(e, x, p + 1) - e[p] * x[p]) by { lemma_upto_lead(e, x, p); assert(f * 0 == 0); } }
pub proof fn lemma_part2_step(w0: Seq<(u64, i32)>, v: Seq<(u64, i32)>, img: Seq<(u64, i32)>, f: int, e: Seq<int>, p: int, j: int, w: Seq<(u64, i32)>)
  requires part2(w0, v, img, f, e, p, j), 0 <= p < j < e.len(), e.len() <= u64::MAX,
    (e[j] == 0 && w == w0) || (e[j] != 0 && w.len() == w0.len() + 1 && w == w0.push(w[w.len() - 1]) && w[w.len() - 1].0 == j && w[w.len() - 1].1 == f * e[j])
  ensures part2(w, v, img, f, e, p, j + 1)
{
  assert forall|x: Seq<int>| x.len() == e.len() implies #[trigger] form(w, x) == form(v, x) + f * (upto(e, x, j + 1) - e[p] * x[p]) by {
    lemma_upto_step(e, x, j); assert(form(w0, x) == form(v, x) + f * (upto(e, x, j) - e[p] * x[p])); let a = e[j]; let b = x[j]; let c = upto(e, x, j) - e[p] * x[p];
    if e[j] == 0 { assert(f * (c + 0 * b) == f * c) by (nonlinear_arith); } else { lemma_form_push(w0, w[w.len() - 1], x); assert(f * (c + a * b) == f * c + (f * a) * b) by (nonlinear_arith); }
  }
  if e[j] != 0 {
    let l = w.len() - 1;
    assert forall|q: int| 0 <= q < w.len() implies (#[trigger] w[q]).0 < e.len() && w[q].0 != p by { if q < l { assert(w[q] == w0[q]); } }
    assert forall|c: int| 0 <= c < e.len() && e[c] == 0 && #[trigger] no_term(img, c) implies no_term(w, c) by { assert(no_term(w0, c)); assert forall|q: int| 0 <= q < w.len() implies (#[trigger] w[q]).0 != c by { if q < l { assert(w[q] == w0[q]); } } }
  }
}
// the term on the leading coordinate is replaced
pub proof fn lemma_part_sub(v: Seq<(u64, i32)>, img: Seq<(u64, i32)>, k: int, f: int, e: Seq<int>, p: int, sg: int, w: Seq<(u64, i32)>)
  requires part(v, img, k, e, p, sg), part2(w, v, img, f, e, p, e.len() as int), 0 <= k < img.len(), img[k].0 == p, f == -img[k].1 * sg, 0 <= p < e.len()
  ensures part(w, img, k + 1, e, p, sg)
{
  assert forall|x: Seq<int>| x.len() == e.len() && dot(e, x) == 0 implies #[trigger] form(w, x) == sg * e[p] * form(img.take(k + 1), x) by {
    assert(e.take(e.len() as int) =~= e); assert(x.take(e.len() as int) =~= x); assert(img.take(k + 1).drop_last() =~= img.take(k)); assert(img.take(k + 1)[k] == img[k]);
    let a = e[p]; let b = x[p]; let t = img[k].1 as int; let g = form(img.take(k), x); assert(form(v, x) == sg * a * g);
    assert((-t * sg) * (0 - a * b) == (sg * a) * (t * b)) by (nonlinear_arith); assert(sg * a * (g + t * b) == sg * a * g + (sg * a) * (t * b)) by (nonlinear_arith);
  }
}
// any other term is scaled
pub proof fn lemma_part_keep(v: Seq<(u64, i32)>, img: Seq<(u64, i32)>, k: int, e: Seq<int>, p: int, sg: int, w: Seq<(u64, i32)>)
  requires part(v, img, k, e, p, sg), 0 <= k < img.len(), in_range(img, e.len() as int), img[k].0 != p, 0 <= p < e.len(), w.len() == v.len() + 1, w == v.push(w[w.len() - 1]), w[w.len() - 1].0 == img[k].0, w[w.len() - 1].1 == img[k].1 * sg * e[p]
  ensures part(w, img, k + 1, e, p, sg)
{
  let l = w.len() - 1;
  assert forall|x: Seq<int>| x.len() == e.len() && dot(e, x) == 0 implies #[trigger] form(w, x) == sg * e[p] * form(img.take(k + 1), x) by {
    assert(img.take(k + 1).drop_last() =~= img.take(k)); assert(img.take(k + 1)[k] == img[k]); lemma_form_push(v, w[l], x);
    let a = e[p]; let b = x[img[k].0 as int]; let t = img[k].1 as int; let g = form(img.take(k), x); assert(form(v, x) == sg * a * g);
    assert(sg * a * (g + t * b) == sg * a * g + (t * sg * a) * b) by (nonlinear_arith);
  }
  assert forall|q: int| 0 <= q < w.len() implies (#[trigger] w[q]).0 < e.len() && w[q].0 != p by { if q < l { assert(w[q] == v[q]); } }
  assert forall|c: int| 0 <= c < e.len() && e[c] == 0 && #[trigger] no_term(img, c) implies no_term(w, c) by { assert(no_term(v, c)); assert(img[k].0 != c); assert forall|q: int| 0 <= q < w.len() implies (#[trigger] w[q]).0 != c by { if q < l { assert(w[q] == v[q]); } } }
}
pub proof fn lemma_part_init(img: Seq<(u64, i32)>, e: Seq<int>, p: int, sg: int) ensures part(Seq::<(u64, i32)>::empty(), img, 0, e, p, sg)
{ assert forall|x: Seq<int>| x.len() == e.len() && dot(e, x) == 0 implies #[trigger] form(Seq::<(u64, i32)>::empty(), x) == sg * e[p] * form(img.take(0), x) by { assert(sg * e[p] * 0 == 0); } }
// the map after one equation
pub open spec fn substituted(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, e: Seq<int>, p: int) -> bool {
  &&& is_map(m, e.len() as int) && o.len() == m.len() && absent(m, p) && same_empty(m, o)
  &&& forall|c: int| 0 <= c < e.len() && e[c] == 0 && #[trigger] absent(o, c) ==> absent(m, c)
  &&& equivalent(m, o, seq![e])
}
pub open spec fn subst_upto(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, e: Seq<int>, p: int, sg: int, k: int) -> bool {
  m.len() == o.len() && forall|i: int| 0 <= i < m.len() ==> if i < k { part(#[trigger] m[i], o[i], o[i].len() as int, e, p, sg) } else { m[i] == o[i] } }
pub proof fn lemma_solves1(e: Seq<int>, x: Seq<int>) requires solves(x, seq![e]) ensures dot(e, x) == 0 { assert(seq![e][0] == e); assert(dot(seq![e][0], x) == 0); }
pub proof fn lemma_substituted(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, e: Seq<int>, p: int, sg: int)
  requires is_map(o, e.len() as int), subst_upto(m, o, e, p, sg, m.len() as int), 0 <= p < e.len(), sg * e[p] > 0
  ensures substituted(m, o, e, p)
{
  assert forall|i: int| 0 <= i < m.len() implies in_range(#[trigger] m[i], e.len() as int) && no_term(m[i], p) && (o[i].len() == 0 ==> m[i].len() == 0) by { assert(part(m[i], o[i], o[i].len() as int, e, p, sg)); }
  assert forall|c: int| 0 <= c < e.len() && e[c] == 0 && #[trigger] absent(o, c) implies absent(m, c) by {
    assert forall|i: int| 0 <= i < m.len() implies no_term(#[trigger] m[i], c) by { assert(part(m[i], o[i], o[i].len() as int, e, p, sg)); assert(no_term(o[i], c)); } }
  assert forall|i: int, x: Seq<int>| 0 <= i < m.len() && x.len() == m.len() && solves(x, seq![e]) implies #[trigger] form(m[i], x) == sg * e[p] * form(o[i], x) by {
    assert(part(m[i], o[i], o[i].len() as int, e, p, sg)); lemma_solves1(e, x); assert(o[i].take(o[i].len() as int) =~= o[i]); }
  assert(scaled_on(m, o, sg * e[p], seq![e]));
}
pub proof fn lemma_unchanged(o: Seq<Seq<(u64, i32)>>, eqs: Seq<Seq<int>>) ensures equivalent(o, o, eqs), same_empty(o, o) { assert(scaled_on(o, o, 1, eqs)); }
pub proof fn lemma_equiv_trans(m: Seq<Seq<(u64, i32)>>, k: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, e1: Seq<Seq<int>>, e2: Seq<Seq<int>>, eqs: Seq<Seq<int>>)
  requires equivalent(m, k, e1), equivalent(k, o, e2), forall|x: Seq<int>| #[trigger] solves(x, eqs) ==> solves(x, e1) && solves(x, e2)
  ensures equivalent(m, o, eqs)
{
  let a = choose|s: int| scaled_on(m, k, s, e1); let b = choose|s: int| scaled_on(k, o, s, e2);
  assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0;
  assert forall|i: int, x: Seq<int>| 0 <= i < m.len() && x.len() == m.len() && solves(x, eqs) implies #[trigger] form(m[i], x) == (a * b) * form(o[i], x) by {
    assert(form(m[i], x) == a * form(k[i], x)); assert(form(k[i], x) == b * form(o[i], x)); let f = form(o[i], x); assert(a * (b * f) == (a * b) * f) by (nonlinear_arith); }
  assert(scaled_on(m, o, a * b, eqs));
}
// the first i equations are substituted
pub open spec fn subst_eqs(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, eqs: Seq<Seq<int>>, i: int) -> bool {
  is_map(m, o.len() as int) && same_empty(m, o) && equivalent(m, o, eqs) && forall|k: int| 0 <= k < i ==> absent(m, lead(#[trigger] eqs[k])) }
pub proof fn lemma_subst_step(m: Seq<Seq<(u64, i32)>>, k: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, eqs: Seq<Seq<int>>, i: int)
  requires echelon(eqs, o.len() as int), 0 <= i < eqs.len(), subst_eqs(k, o, eqs, i), substituted(m, k, eqs[i], lead(eqs[i]))
  ensures subst_eqs(m, o, eqs, i + 1)
{
  assert(eqs[i].len() == o.len());
  assert forall|x: Seq<int>| #[trigger] solves(x, eqs) implies solves(x, seq![eqs[i]]) by { assert forall|q: int| 0 <= q < 1 implies #[trigger] dot(seq![eqs[i]][q], x) == 0 by { assert(dot(eqs[i], x) == 0); } }
  lemma_equiv_trans(m, k, o, seq![eqs[i]], eqs, eqs);
  assert forall|q: int| 0 <= q < m.len() && o[q].len() == 0 implies (#[trigger] m[q]).len() == 0 by { assert(k[q].len() == 0); }
  assert forall|q: int| 0 <= q < i + 1 implies absent(m, lead(#[trigger] eqs[q])) by { if q < i { assert(absent(k, lead(eqs[q]))); assert(eqs[i][lead(eqs[q])] == 0); } }
}
// images sorted by index, every index once
pub open spec fn tidy(m: Seq<(u64, i32)>, o: Seq<(u64, i32)>) -> bool {
  ascending(m) && same_form(m, o) }
pub open spec fn same_form(m: Seq<(u64, i32)>, o: Seq<(u64, i32)>) -> bool {
  &&& forall|c: int| #[trigger] no_term(o, c) ==> no_term(m, c)
  &&& o.len() == 0 ==> m.len() == 0
  &&& forall|x: Seq<int>| #[trigger] form(m, x) == form(o, x)
}
pub open spec fn tidying(w: Seq<(u64, i32)>, o: Seq<(u64, i32)>, i: int) -> bool {
  &&& same_form(w, o)
  &&& forall|k: int, l: int| 0 <= k < l < w.len() ==> (#[trigger] w[k]).0 <= (#[trigger] w[l]).0
  &&& forall|k: int, l: int| 0 <= k < l <= i && l < w.len() ==> (#[trigger] w[k]).0 < (#[trigger] w[l]).0
}
pub open spec fn pair_less() -> spec_fn((u64, i32), (u64, i32)) -> bool { |x_: (u64, i32), y_: (u64, i32)| x_.0 < y_.0 || (x_.0 == y_.0 && x_.1 < y_.1) }
pub proof fn lemma_tidy_init(o: Seq<(u64, i32)>, w: Seq<(u64, i32)>)
  requires w.len() == o.len(), w.to_multiset() == o.to_multiset(), forall|x: (u64, i32)| #[trigger] w.contains(x) <==> o.contains(x), forall|i: int, j: int| 0 <= i < j < w.len() ==> (#[trigger] w[i]).0 <= (#[trigger] w[j]).0
  ensures tidying(w, o, 0)
{
  assert forall|x: Seq<int>| #[trigger] form(w, x) == form(o, x) by { lemma_form_permuted(w, o, x); }
  assert forall|c: int| #[trigger] no_term(o, c) implies no_term(w, c) by { assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).0 != c by { assert(w.contains(w[k])); let q = choose|q: int| 0 <= q < o.len() && o[q] == w[k]; assert(o[q].0 != c); } }
}
pub proof fn lemma_tidy_merge(w: Seq<(u64, i32)>, o: Seq<(u64, i32)>, i: int, f: i32, v: Seq<(u64, i32)>)
  requires tidying(w, o, i), 0 <= i, i + 1 < w.len(), w[i].0 == w[i + 1].0, f == w[i].1 + w[i + 1].1, v == w.update(i, (w[i].0, f)).remove(i + 1)
  ensures tidying(v, o, i)
{
  let u = w.update(i, (w[i].0, f));
  assert forall|x: Seq<int>| #[trigger] form(v, x) == form(o, x) by { assert(form(w, x) == form(o, x)); lemma_form_update(w, i, f, x); lemma_form_remove(u, i + 1, x); assert(f - w[i].1 == w[i + 1].1); }
  assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).0 == w[if k <= i { k } else { k + 1 }].0 by {}
  assert forall|c: int| #[trigger] no_term(o, c) implies no_term(v, c) by { assert(no_term(w, c)); assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).0 != c by { assert(w[if k <= i { k } else { k + 1 }].0 != c); } }
}
pub proof fn lemma_tidy_drop(w: Seq<(u64, i32)>, o: Seq<(u64, i32)>, i: int, v: Seq<(u64, i32)>)
  requires tidying(w, o, i), 0 <= i < w.len(), w[i].1 == 0, v == w.remove(i)
  ensures tidying(v, o, i)
{
  assert forall|x: Seq<int>| #[trigger] form(v, x) == form(o, x) by { assert(form(w, x) == form(o, x)); lemma_form_remove(w, i, x); assert(0 * x[w[i].0 as int] == 0); }
  assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).0 == w[if k < i { k } else { k + 1 }].0 by {}
  assert forall|c: int| #[trigger] no_term(o, c) implies no_term(v, c) by { assert(no_term(w, c)); assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).0 != c by { assert(w[if k < i { k } else { k + 1 }].0 != c); } }
  assert forall|k: int, l: int| 0 <= k < l <= i && l < v.len() implies (#[trigger] v[k]).0 < (#[trigger] v[l]).0 by { if l == i { assert(w[k].0 < w[i].0); assert(w[i].0 <= w[i + 1].0); } else { assert(w[k].0 < w[l].0); } }
}
pub proof fn lemma_tidy_next(w: Seq<(u64, i32)>, o: Seq<(u64, i32)>, i: int) requires tidying(w, o, i), 0 <= i, i + 1 < w.len(), w[i].0 != w[i + 1].0 ensures tidying(w, o, i + 1)
{ assert forall|k: int, l: int| 0 <= k < l <= i + 1 && l < w.len() implies (#[trigger] w[k]).0 < (#[trigger] w[l]).0 by { if l == i + 1 { assert(w[k].0 <= w[i].0); assert(w[i].0 < w[i + 1].0); } } }
// the result of the normalisation
pub open spec fn normal_map(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, eqs: Seq<Seq<int>>) -> bool {
  &&& is_map(m, o.len() as int)
  &&& forall|i: int| 0 <= i < m.len() ==> ascending(#[trigger] m[i])
  &&& forall|c: int| #[trigger] is_elim(eqs, c) ==> absent(m, c) && (0 <= c < m.len() ==> m[c].len() == 0)
  &&& exists|s: int| acts_as(m, o, s, eqs)
}
// s times the action of the old map on facet rows that are zero on the eliminated coordinates, modulo the equations
pub open spec fn normal_row(a: Seq<int>, eqs: Seq<Seq<int>>) -> bool { forall|k: int| 0 <= k < eqs.len() ==> a[lead(#[trigger] eqs[k])] == 0 }
pub open spec fn acts_as(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, s: int, eqs: Seq<Seq<int>>) -> bool {
  &&& s > 0 && m.len() == o.len()
  &&& forall|i: int, x: Seq<int>| 0 <= i < m.len() && !is_elim(eqs, i) && x.len() == m.len() && solves(x, eqs) ==> #[trigger] form(m[i], x) == s * form(o[i], x)
  &&& forall|a: Seq<int>, x: Seq<int>| a.len() == m.len() && x.len() == m.len() && normal_row(a, eqs) && solves(x, eqs) ==> #[trigger] dot(facet_image(m, a), x) == s * dot(facet_image(o, a), x)
}
pub open spec fn cleared(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>, ind: Seq<u64>, k: int) -> bool {
  m.len() == o.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (if exists|q: int| 0 <= q < k && #[trigger] ind[q] == i { Seq::<(u64, i32)>::empty() } else { o[i] }) }
pub open spec fn lead_indices(ind: Seq<u64>, eqs: Seq<Seq<int>>) -> bool { ind.len() == eqs.len() && forall|k: int| 0 <= k < ind.len() ==> #[trigger] ind[k] == lead(eqs[k]) }
pub open spec fn all_tidy(m: Seq<Seq<(u64, i32)>>, o: Seq<Seq<(u64, i32)>>) -> bool { m.len() == o.len() && forall|i: int| 0 <= i < m.len() ==> tidy(#[trigger] m[i], o[i]) }
pub proof fn lemma_dot_scaled(a: Seq<int>, u: Seq<int>, v: Seq<int>, s: int)
  requires u.len() == a.len(), v.len() == a.len(), forall|i: int| 0 <= i < a.len() && a[i] != 0 ==> #[trigger] u[i] == s * v[i]
  ensures dot(a, u) == s * dot(a, v) decreases a.len()
{
  if a.len() > 0 { let n = a.len() - 1; lemma_dot_prefix(a, u); lemma_dot_prefix(a, v);
    assert forall|i: int| 0 <= i < n && a.drop_last()[i] != 0 implies #[trigger] u.drop_last()[i] == s * v.drop_last()[i] by { assert(u[i] == s * v[i]); }
    lemma_dot_scaled(a.drop_last(), u.drop_last(), v.drop_last(), s);
    let p = a[n]; let q = v[n]; let d = dot(a.drop_last(), v.drop_last()); assert(s * (d + p * q) == s * d + p * (s * q)) by (nonlinear_arith); if p == 0 { assert(p * u[n] == 0 && p * (s * q) == 0) by (nonlinear_arith) requires p == 0; } }
  else { assert(s * 0 == 0); }
}
pub proof fn lemma_normal_map(o: Seq<Seq<(u64, i32)>>, eqs: Seq<Seq<int>>, ind: Seq<u64>, c0: Seq<Seq<(u64, i32)>>, b: Seq<Seq<(u64, i32)>>, m: Seq<Seq<(u64, i32)>>)
  requires is_map(o, o.len() as int), echelon(eqs, o.len() as int), lead_indices(ind, eqs), cleared(c0, o, ind, ind.len() as int), subst_eqs(b, c0, eqs, eqs.len() as int), all_tidy(m, b)
  ensures normal_map(m, o, eqs)
{
  assert forall|i: int| 0 <= i < m.len() implies ascending(#[trigger] m[i]) && in_range(m[i], o.len() as int) by {
    assert(tidy(m[i], b[i])); assert(in_range(b[i], o.len() as int));
    assert forall|k: int| 0 <= k < m[i].len() implies (#[trigger] m[i][k]).0 < o.len() by { let c = m[i][k].0 as int; if c >= o.len() { assert(no_term(b[i], c)); assert(no_term(m[i], c)); } } }
  assert forall|c: int| #[trigger] is_elim(eqs, c) implies absent(m, c) && (0 <= c < m.len() ==> m[c].len() == 0) by {
    let k = choose|k: int| 0 <= k < eqs.len() && lead(#[trigger] eqs[k]) == c; assert(absent(b, lead(eqs[k])));
    assert forall|i: int| 0 <= i < m.len() implies no_term(#[trigger] m[i], c) by { assert(tidy(m[i], b[i])); assert(no_term(b[i], c)); }
    if 0 <= c < m.len() { assert(ind[k] == c); assert(c0[c].len() == 0); assert(b[c].len() == 0); assert(tidy(m[c], b[c])); } }
  let s = choose|s: int| scaled_on(b, c0, s, eqs);
  assert forall|i: int, x: Seq<int>| 0 <= i < m.len() && !is_elim(eqs, i) && x.len() == m.len() && solves(x, eqs) implies #[trigger] form(m[i], x) == s * form(o[i], x) by {
    assert(tidy(m[i], b[i])); assert(form(m[i], x) == form(b[i], x)); assert(form(b[i], x) == s * form(c0[i], x));
    if exists|q: int| 0 <= q < ind.len() && #[trigger] ind[q] == i { let q = choose|q: int| 0 <= q < ind.len() && #[trigger] ind[q] == i; assert(lead(eqs[q]) == i); assert(is_elim(eqs, i)); }
    assert(c0[i] == o[i]); }
  assert forall|a: Seq<int>, x: Seq<int>| a.len() == m.len() && x.len() == m.len() && normal_row(a, eqs) && solves(x, eqs) implies #[trigger] dot(facet_image(m, a), x) == s * dot(facet_image(o, a), x) by {
    lemma_facet_image(m, a); lemma_facet_image(o, a); let u = vertex_image(m, x); let v = vertex_image(o, x);
    assert(dot(facet_image(m, a), x) == dot(a, u)); assert(dot(facet_image(o, a), x) == dot(a, v));
    assert forall|i: int| 0 <= i < a.len() && a[i] != 0 implies #[trigger] u[i] == s * v[i] by { if is_elim(eqs, i) { let k = choose|k: int| 0 <= k < eqs.len() && lead(#[trigger] eqs[k]) == i; assert(a[lead(eqs[k])] == 0); } assert(form(m[i], x) == s * form(o[i], x)); }
    lemma_dot_scaled(a, u, v, s); }
  assert(acts_as(m, o, s, eqs));
}
