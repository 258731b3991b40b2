// the image of a row (kind 0: facet rows, kind 1: vertex rows), and what is reached by applying maps
pub open spec fn image(k: int, m: Seq<Seq<(u64, i32)>>, x: Seq<int>) -> Seq<int> { if k == 0 { primitive(facet_image(m, x)) } else { primitive(vertex_image(m, x)) } }
pub open spec fn path(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, p: Seq<int>) -> Seq<int> decreases p.len() { if p.len() == 0 { r } else { image(k, ms[p[p.len() - 1]], path(k, ms, r, p.drop_last())) } }
pub open spec fn below_all(p: Seq<int>, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n }
pub open spec fn leads(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, p: Seq<int>, x: Seq<int>) -> bool { below_all(p, ms.len() as int) && path(k, ms, r, p) == x }
#[verifier::opaque]
pub open spec fn reach(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, x: Seq<int>) -> bool { exists|p: Seq<int>| #[trigger] leads(k, ms, r, p, x) }
pub open spec fn closed_at(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, s: Set<Seq<int>>, x: Seq<int>) -> bool { forall|j: int| 0 <= j < ms.len() ==> s.contains(image(k, #[trigger] ms[j], x)) }
pub open spec fn is_class(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>) -> bool {
  s.contains(r) && (forall|x: Seq<int>| #[trigger] s.contains(x) ==> reach(k, ms, r, x) && closed_at(k, ms, s, x)) && forall|x: Seq<int>| #[trigger] reach(k, ms, r, x) ==> s.contains(x)
}
pub open spec fn is_rep(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, z: Seq<int>) -> bool { reach(k, ms, r, z) && forall|x: Seq<int>| #[trigger] reach(k, ms, r, x) ==> x == z || lexlt(x, z) }
pub proof fn lemma_reach_self(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>) ensures reach(k, ms, r, r) { reveal(reach); assert(leads(k, ms, r, Seq::empty(), r)); }
pub proof fn lemma_reach_step(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, x: Seq<int>, j: int) requires reach(k, ms, r, x), 0 <= j < ms.len() ensures reach(k, ms, r, image(k, ms[j], x))
{ reveal(reach); let p = choose|p: Seq<int>| #[trigger] leads(k, ms, r, p, x); let q = p.push(j); assert(q.drop_last() =~= p); assert(leads(k, ms, r, q, image(k, ms[j], x))); }
pub proof fn lemma_path_in(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, p: Seq<int>, s: Set<Seq<int>>)
  requires s.contains(r), forall|x: Seq<int>| #[trigger] s.contains(x) ==> closed_at(k, ms, s, x), below_all(p, ms.len() as int)
  ensures s.contains(path(k, ms, r, p)) decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); assert(below_all(q, ms.len() as int)) by { assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < ms.len() by { assert(p[i] == q[i]); } }
    lemma_path_in(k, ms, r, q, s); assert(closed_at(k, ms, s, path(k, ms, r, q))); let j = p[p.len() - 1]; assert(s.contains(image(k, ms[j], path(k, ms, r, q)))); } }
pub proof fn lemma_class(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>)
  requires s.contains(r), forall|x: Seq<int>| #[trigger] s.contains(x) ==> reach(k, ms, r, x) && closed_at(k, ms, s, x)
  ensures is_class(k, ms, r, s)
{ assert forall|x: Seq<int>| #[trigger] reach(k, ms, r, x) implies s.contains(x) by { reveal(reach); let p = choose|p: Seq<int>| #[trigger] leads(k, ms, r, p, x); lemma_path_in(k, ms, r, p, s); } }
pub proof fn lemma_path_cat(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, p: Seq<int>, q: Seq<int>) ensures path(k, ms, r, p + q) == path(k, ms, path(k, ms, r, p), q) decreases q.len()
{ if q.len() == 0 { assert(p + q =~= p); } else { assert((p + q).drop_last() =~= p + q.drop_last()); lemma_path_cat(k, ms, r, p, q.drop_last()); } }
pub proof fn lemma_reach_trans(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, a: Seq<int>, b: Seq<int>, c: Seq<int>) requires reach(k, ms, a, b), reach(k, ms, b, c) ensures reach(k, ms, a, c)
{ reveal(reach); let p = choose|p: Seq<int>| #[trigger] leads(k, ms, a, p, b); let q = choose|q: Seq<int>| #[trigger] leads(k, ms, b, q, c); lemma_path_cat(k, ms, a, p, q);
  assert(leads(k, ms, a, p + q, c)) by { assert forall|i: int| 0 <= i < (p + q).len() implies 0 <= #[trigger] (p + q)[i] < ms.len() by { if i < p.len() { assert(p[i] == (p + q)[i]); } else { assert(q[i - p.len()] == (p + q)[i]); } } } }
// the last row of the enumeration is the greatest one
pub proof fn lemma_rep(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>)
  requires is_class(k, ms, r, s)
  ensures set_enum(s).len() > 0, is_rep(k, ms, r, set_enum(s)[set_enum(s).len() - 1])
{
  axiom_set_enum(s); let q = set_enum(s); assert(q.contains(r)); let l = q.len() - 1;
  assert(q.contains(q[l]));
  assert forall|x: Seq<int>| #[trigger] reach(k, ms, r, x) implies x == q[l] || lexlt(x, q[l]) by { assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < l { assert(lexlt(q[i], q[l])); } }
}
pub proof fn lemma_image_len(k: int, m: Seq<Seq<(u64, i32)>>, x: Seq<int>) requires is_map(m, x.len() as int) ensures image(k, m, x).len() == x.len()
{ lemma_facet_image(m, x); lemma_primitive(facet_image(m, x)); lemma_primitive(vertex_image(m, x)); }
// reducing rows to representatives: src[i] is the row whose class result i represents
pub open spec fn represents(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, src: Seq<Seq<int>>, rows: Set<Seq<int>>) -> bool { c.len() == src.len() && forall|i: int| 0 <= i < c.len() ==> is_rep(k, ms, #[trigger] src[i], c[i]) && rows.contains(src[i]) }
pub open spec fn covered(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, src: Seq<Seq<int>>, x: Seq<int>) -> bool { exists|i: int| 0 <= i < src.len() && reach(k, ms, #[trigger] src[i], x) }
// no row is reached from the source of an earlier result
pub open spec fn fresh(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, src: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < src.len() ==> !reach(k, ms, #[trigger] src[i], #[trigger] src[j]) }
pub open spec fn reduction(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, src: Seq<Seq<int>>, rows: Set<Seq<int>>) -> bool { represents(k, ms, c, src, rows) && fresh(k, ms, src) && forall|x: Seq<int>| #[trigger] rows.contains(x) ==> covered(k, ms, src, x) }
pub open spec fn reduces(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, rows: Set<Seq<int>>) -> bool { exists|src: Seq<Seq<int>>| #[trigger] reduction(k, ms, c, src, rows) }
pub open spec fn symmetric(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, rows: Set<Seq<int>>) -> bool { forall|a: Seq<int>, b: Seq<int>| rows.contains(a) && #[trigger] reach(k, ms, a, b) ==> reach(k, ms, b, a) }
pub proof fn lemma_distinct(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, src: Seq<Seq<int>>, rows: Set<Seq<int>>)
  requires reduction(k, ms, c, src, rows), symmetric(k, ms, rows)
  ensures c.no_duplicates()
{
  assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i < j implies c[i] != c[j] by {
    if c[i] == c[j] { assert(is_rep(k, ms, src[i], c[i]) && rows.contains(src[i])); assert(is_rep(k, ms, src[j], c[j]) && rows.contains(src[j])); assert(reach(k, ms, c[j], src[j])); lemma_reach_trans(k, ms, src[i], c[i], src[j]); assert(!reach(k, ms, src[i], src[j])); } }
}
pub open spec fn rows_of(rows: Set<Seq<int>>, n: int) -> bool { forall|x: Seq<int>| #[trigger] rows.contains(x) ==> x.len() == n }
// every row found so far is reached, and closed under the maps unless it is still to be visited
pub open spec fn visiting(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, todo: Seq<Option<Seq<int>>>) -> bool {
  s.contains(r) && (forall|x: Seq<int>| #[trigger] s.contains(x) ==> reach(k, ms, r, x) && x.len() == r.len() && (todo.contains(Some(x)) || closed_at(k, ms, s, x)))
  && forall|i: int| 0 <= i < todo.len() ==> (#[trigger] todo[i]) is Some && s.contains(todo[i]->Some_0)
}
#[verifier::opaque]
pub open spec fn visit(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, todo: Seq<Option<Seq<int>>>, cur: Seq<int>, j: int) -> bool {
  s.contains(r) && s.contains(cur) && (forall|x: Seq<int>| #[trigger] s.contains(x) ==> reach(k, ms, r, x) && x.len() == r.len() && (todo.contains(Some(x)) || x == cur || closed_at(k, ms, s, x)))
  && (forall|i: int| 0 <= i < todo.len() ==> (#[trigger] todo[i]) is Some && s.contains(todo[i]->Some_0)) && forall|q: int| 0 <= q < j ==> s.contains(image(k, #[trigger] ms[q], cur))
}
pub proof fn lemma_visit_start(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, todo: Seq<Option<Seq<int>>>)
  requires visiting(k, ms, r, s, todo), todo.len() > 0
  ensures visit(k, ms, r, s, todo.drop_last(), todo[todo.len() - 1]->Some_0, 0), todo[todo.len() - 1] is Some
{
  reveal(visit); let d = todo.drop_last(); let l = todo.len() - 1; let c = todo[l]->Some_0; assert(todo[l] is Some);
  assert forall|x: Seq<int>| #[trigger] s.contains(x) implies d.contains(Some(x)) || x == c || closed_at(k, ms, s, x) by { if todo.contains(Some(x)) { let i = choose|i: int| 0 <= i < todo.len() && todo[i] == Some(x); if i < l { assert(d[i] == Some(x)); } } }
  assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Some && s.contains(d[i]->Some_0) by { assert(d[i] == todo[i]); }
}
pub proof fn lemma_visit_step(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, todo: Seq<Option<Seq<int>>>, cur: Seq<int>, j: int, s2: Set<Seq<int>>, todo2: Seq<Option<Seq<int>>>)
  requires visit(k, ms, r, s, todo, cur, j), 0 <= j < ms.len(), are_maps(ms, r.len() as int), s2 == s.insert(image(k, ms[j], cur)), todo2 == (if s.contains(image(k, ms[j], cur)) { todo } else { todo.push(Some(image(k, ms[j], cur))) })
  ensures visit(k, ms, r, s2, todo2, cur, j + 1)
{
  reveal(visit); let y = image(k, ms[j], cur);
  assert(s.contains(cur)); assert(cur.len() == r.len()); assert(is_map(ms[j], r.len() as int)); lemma_image_len(k, ms[j], cur); lemma_reach_step(k, ms, r, cur, j);
  assert forall|i: int| 0 <= i < todo2.len() implies (#[trigger] todo2[i]) is Some && s2.contains(todo2[i]->Some_0) by { if i < todo.len() { assert(todo2[i] == todo[i]); } }
  assert forall|x: Seq<int>| #[trigger] s2.contains(x) implies reach(k, ms, r, x) && x.len() == r.len() && (todo2.contains(Some(x)) || x == cur || closed_at(k, ms, s2, x)) by {
    if s.contains(x) {
      if todo.contains(Some(x)) { let i = choose|i: int| 0 <= i < todo.len() && todo[i] == Some(x); assert(todo2[i] == Some(x)); }
      else if x != cur { assert(closed_at(k, ms, s, x)); assert forall|q: int| 0 <= q < ms.len() implies s2.contains(image(k, #[trigger] ms[q], x)) by { assert(s.contains(image(k, ms[q], x))); } }
    } else { assert(x == y); assert(todo2[todo2.len() - 1] == Some(y)); }
  }
  assert forall|q: int| 0 <= q < j + 1 implies s2.contains(image(k, #[trigger] ms[q], cur)) by { if q < j { assert(s.contains(image(k, ms[q], cur))); } }
}
pub proof fn lemma_visit_end(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, todo: Seq<Option<Seq<int>>>, cur: Seq<int>)
  requires visit(k, ms, r, s, todo, cur, ms.len() as int) ensures visiting(k, ms, r, s, todo)
{ reveal(visit); assert(closed_at(k, ms, s, cur)); }
pub proof fn lemma_visit_in(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, todo: Seq<Option<Seq<int>>>, cur: Seq<int>, j: int)
  requires visit(k, ms, r, s, todo, cur, j) ensures s.contains(cur), cur.len() == r.len(), forall|x: Seq<int>| #[trigger] s.contains(x) ==> reach(k, ms, r, x)
{ reveal(visit); }
pub open spec fn all_reached(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, f: Set<Seq<int>>) -> bool { forall|x: Seq<int>| #[trigger] reach(k, ms, r, x) ==> f.contains(x) }
pub open spec fn finite_orbit(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>) -> bool { exists|f: Set<Seq<int>>| #[trigger] all_reached(k, ms, r, f) }
pub proof fn lemma_orbit_bound(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, r: Seq<int>, s: Set<Seq<int>>, f: Set<Seq<int>>)
  requires all_reached(k, ms, r, f), forall|x: Seq<int>| #[trigger] s.contains(x) ==> reach(k, ms, r, x) ensures s.len() <= f.len()
{ vstd::set_lib::lemma_len_subset(s, f); }
#[verifier::opaque]
pub open spec fn reducing(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, src: Seq<Seq<int>>, rows0: Set<Seq<int>>, rows: Set<Seq<int>>) -> bool {
  represents(k, ms, c, src, rows0) && fresh(k, ms, src) && (forall|x: Seq<int>| #[trigger] rows0.contains(x) ==> rows.contains(x) || covered(k, ms, src, x)) && forall|x: Seq<int>| #[trigger] rows.contains(x) ==> rows0.contains(x) && !covered(k, ms, src, x)
}
pub open spec fn removing(rows: Set<Seq<int>>, rows1: Set<Seq<int>>, e: Seq<Seq<int>>, j: int) -> bool { forall|x: Seq<int>| #[trigger] rows.contains(x) <==> rows1.contains(x) && !e.take(j).contains(x) }
pub open spec fn subset_of(a: Set<Seq<int>>, b: Set<Seq<int>>) -> bool { forall|x: Seq<int>| #[trigger] a.contains(x) ==> b.contains(x) }
pub proof fn lemma_reducing_in(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, src: Seq<Seq<int>>, rows0: Set<Seq<int>>, rows: Set<Seq<int>>) requires reducing(k, ms, c, src, rows0, rows) ensures subset_of(rows, rows0) { reveal(reducing); }
pub proof fn lemma_reducing_init(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, rows: Set<Seq<int>>) ensures reducing(k, ms, Seq::empty(), Seq::empty(), rows, rows) { reveal(reducing); }
pub proof fn lemma_removing_step(rows: Set<Seq<int>>, rows1: Set<Seq<int>>, e: Seq<Seq<int>>, j: int, rows2: Set<Seq<int>>)
  requires removing(rows, rows1, e, j), 0 <= j < e.len(), forall|x: Seq<int>| #[trigger] rows2.contains(x) <==> rows.contains(x) && x != e[j]
  ensures removing(rows2, rows1, e, j + 1)
{
  let s = e.take(j); let t = e.take(j + 1);
  assert forall|x: Seq<int>| #[trigger] rows2.contains(x) <==> rows1.contains(x) && !t.contains(x) by {
    assert(rows.contains(x) <==> rows1.contains(x) && !s.contains(x));
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
    if x == e[j] { assert(t[j] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < j { assert(s[i] == x); } }
  }
}
pub proof fn lemma_reducing_step(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c0: Seq<Seq<int>>, src0: Seq<Seq<int>>, rows0: Set<Seq<int>>, rows1: Set<Seq<int>>, r: Seq<int>, cls: Set<Seq<int>>, z: Seq<int>, rows: Set<Seq<int>>)
  requires reducing(k, ms, c0, src0, rows0, rows1), rows1.contains(r), is_class(k, ms, r, cls), is_rep(k, ms, r, z), removing(rows, rows1, set_enum(cls), set_enum(cls).len() as int)
  ensures reducing(k, ms, c0.push(z), src0.push(r), rows0, rows), rows.len() < rows1.len()
{
  reveal(reducing); let c = c0.push(z); let src = src0.push(r); let e = set_enum(cls); axiom_set_enum(cls);
  assert(e.take(e.len() as int) =~= e);
  assert forall|x: Seq<int>| #[trigger] rows.contains(x) <==> rows1.contains(x) && !cls.contains(x) by { assert(e.contains(x) <==> cls.contains(x)); }
  assert forall|i: int| 0 <= i < c.len() implies is_rep(k, ms, #[trigger] src[i], c[i]) && rows0.contains(src[i]) by { if i < c0.len() { assert(src[i] == src0[i]); assert(is_rep(k, ms, src0[i], c0[i])); } }
  assert forall|i: int, j: int| 0 <= i < j < src.len() implies !reach(k, ms, #[trigger] src[i], #[trigger] src[j]) by { if j < src0.len() { assert(!reach(k, ms, src0[i], src0[j])); } else { assert(!covered(k, ms, src0, r)); assert(src[i] == src0[i]); } }
  assert forall|x: Seq<int>| covered(k, ms, src, x) == (#[trigger] covered(k, ms, src0, x) || reach(k, ms, r, x)) by {
    if covered(k, ms, src0, x) { let i = choose|i: int| 0 <= i < src0.len() && reach(k, ms, #[trigger] src0[i], x); assert(reach(k, ms, src[i], x)); }
    if reach(k, ms, r, x) { assert(reach(k, ms, src[src0.len() as int], x)); }
    if covered(k, ms, src, x) { let i = choose|i: int| 0 <= i < src.len() && reach(k, ms, #[trigger] src[i], x); if i < src0.len() { assert(reach(k, ms, src0[i], x)); } }
  }
  assert forall|x: Seq<int>| #[trigger] rows0.contains(x) implies rows.contains(x) || covered(k, ms, src, x) by { assert(covered(k, ms, src, x) == (covered(k, ms, src0, x) || reach(k, ms, r, x))); assert(rows.contains(x) <==> rows1.contains(x) && !cls.contains(x)); }
  assert forall|x: Seq<int>| #[trigger] rows.contains(x) implies rows0.contains(x) && !covered(k, ms, src, x) by { assert(covered(k, ms, src, x) == (covered(k, ms, src0, x) || reach(k, ms, r, x))); }
  assert(rows.subset_of(rows1.remove(r))) by { assert(!rows.contains(r)); assert forall|x: Seq<int>| #[trigger] rows.contains(x) implies rows1.remove(r).contains(x) by {} }
  vstd::set_lib::lemma_len_subset(rows, rows1.remove(r));
}
pub proof fn lemma_reducing_end(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, c: Seq<Seq<int>>, src: Seq<Seq<int>>, rows0: Set<Seq<int>>, rows: Set<Seq<int>>)
  requires reducing(k, ms, c, src, rows0, rows), rows =~= Set::<Seq<int>>::empty() ensures reduces(k, ms, c, rows0), symmetric(k, ms, rows0) ==> c.no_duplicates()
{ reveal(reducing); assert(reduction(k, ms, c, src, rows0)); if symmetric(k, ms, rows0) { lemma_distinct(k, ms, c, src, rows0); } }
