pub open spec fn valid_row(a: Seq<int>, vs: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < vs.len() ==> dot(a, #[trigger] vs[i]) <= 0 }
pub open spec fn on_facet(s: Seq<Seq<int>>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool {
  (forall|i: int| 0 <= i < s.len() ==> vs.contains(#[trigger] s[i]) && dot(f, s[i]) == 0) && forall|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 ==> s.contains(vs[i])
}
// a ridge: primitive, valid on the facet, and not tight at all of it
pub open spec fn is_ridge(r: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool {
  r.len() == f.len() && row_gcd(r) == 1 && (forall|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 ==> dot(r, vs[i]) <= 0) && exists|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 && dot(r, vs[i]) < 0
}
pub open spec fn touches(x: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool { exists|i: int| 0 <= i < vs.len() && dot(x, #[trigger] vs[i]) == 0 && dot(f, vs[i]) < 0 }
pub open spec fn agrees(x: Seq<int>, r: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool { forall|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 ==> sgn(dot(x, vs[i])) == sgn(dot(r, vs[i])) }
// the neighbour: valid, primitive, tight off the facet and, on the facet, exactly on the ridge
pub open spec fn neighbour(x: Seq<int>, r: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool { x.len() == f.len() && row_gcd(x) == 1 && valid_row(x, vs) && touches(x, vs, f) && agrees(x, r, vs, f) }
pub open spec fn rotates(x: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool { exists|r: Seq<int>| is_ridge(r, vs, f) && #[trigger] neighbour(x, r, vs, f) }
pub open spec fn face_nonzero(vs: Seq<Seq<int>>, f: Seq<int>) -> bool { exists|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs[i].len() && #[trigger] vs[i][j] != 0 && dot(f, vs[i]) == 0 }
pub open spec fn off_facet(vs: Seq<Seq<int>>, f: Seq<int>) -> bool { exists|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) < 0 }
pub open spec fn all_rotate(s: Set<Seq<int>>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool { forall|x: Seq<int>| #[trigger] s.contains(x) ==> rotates(x, vs, f) }
pub open spec fn reduces_neighbours(k: int, ms: Seq<Seq<Seq<(u64, i32)>>>, out: Seq<Seq<int>>, vs: Seq<Seq<int>>, f: Seq<int>) -> bool { exists|s: Set<Seq<int>>| all_rotate(s, vs, f) && #[trigger] reduces(k, ms, out, s) }
pub proof fn lemma_on_facet(s: Seq<Seq<int>>, vs: Seq<Seq<int>>, f: Seq<int>)
  requires on_facet(s, vs, f), rect(vs, f.len()), face_nonzero(vs, f)
  ensures s.len() > 0, rect(s, f.len()), nonzero(s)
{
  let (i, j) = choose|i: int, j: int| 0 <= i < vs.len() && 0 <= j < vs[i].len() && #[trigger] vs[i][j] != 0 && dot(f, vs[i]) == 0;
  assert(s.contains(vs[i])); let q = choose|q: int| 0 <= q < s.len() && s[q] == vs[i]; assert(s[q][j] != 0);
  assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() == f.len() by { assert(vs.contains(s[i])); let p = choose|p: int| 0 <= p < vs.len() && vs[p] == s[i]; assert(vs[p].len() == f.len()); }
}
pub proof fn lemma_is_ridge(r: Seq<int>, s: Seq<Seq<int>>, vs: Seq<Seq<int>>, f: Seq<int>)
  requires on_facet(s, vs, f), supports(r, s, f.len() as int)
  ensures is_ridge(r, vs, f)
{
  assert forall|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 implies dot(r, vs[i]) <= 0 by { assert(s.contains(vs[i])); let q = choose|q: int| 0 <= q < s.len() && s[q] == vs[i]; assert(dot(r, s[q]) <= 0); }
  let q = choose|q: int| 0 <= q < s.len() && dot(r, #[trigger] s[q]) < 0; assert(vs.contains(s[q]) && dot(f, s[q]) == 0); let p = choose|p: int| 0 <= p < vs.len() && vs[p] == s[q]; assert(dot(f, vs[p]) == 0 && dot(r, vs[p]) < 0);
}
// one step of the rotation
pub proof fn lemma_rotate_step(vs: Seq<Seq<int>>, v: Seq<int>, f: Seq<int>, r0: Seq<int>, r: Seq<int>, g: int, df: int, dr: int)
  requires rect(vs, f.len()), r.len() == f.len(), v.len() == f.len(), r0.len() == f.len(), df > 0, g > 0, g * df == -dot(f, v), g * dr == -dot(r, v), agrees(r, r0, vs, f), is_ridge(r0, vs, f)
  ensures ({ let x = primitive(vsub(vscale(r, df), vscale(f, dr))); agrees(x, r0, vs, f) && dot(x, v) == 0 && row_gcd(x) == 1 && x.len() == f.len() })
{
  let s = vsub(vscale(r, df), vscale(f, dr)); let x = primitive(s);
  lemma_primitive(s); lemma_row_gcd(s); lemma_row_gcd(x);
  lemma_dot_sub(vscale(r, df), vscale(f, dr), v); lemma_dot_scale(r, df, v); lemma_dot_scale(f, dr, v);
  assert(dot(s, v) == 0) by (nonlinear_arith) requires dot(s, v) == dot(r, v) * df - dot(f, v) * dr, g * df == -dot(f, v), g * dr == -dot(r, v);
  assert(sgn(dot(x, v)) == sgn(dot(s, v)));
  assert forall|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 implies sgn(dot(x, vs[i])) == sgn(dot(r0, vs[i])) by {
    lemma_dot_sub(vscale(r, df), vscale(f, dr), vs[i]); lemma_dot_scale(r, df, vs[i]); lemma_dot_scale(f, dr, vs[i]); assert(0 * dr == 0) by (nonlinear_arith); lemma_sgn_mul(dot(r, vs[i]), df); assert(sgn(dot(x, vs[i])) == sgn(dot(s, vs[i])));
  }
  let i = choose|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) == 0 && dot(r0, vs[i]) < 0;
  assert(sgn(dot(x, vs[i])) == -1);
  if all_zero(x) { lemma_dot_zero(x, vs[i]); }
}
pub proof fn lemma_furthest(v: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>)
  requires off_facet(vs, f), exists|i: int| 0 <= i < vs.len() && v == #[trigger] vs[i] && forall|j: int| 0 <= j < vs.len() ==> dot(f, #[trigger] vs[j]) >= dot(f, vs[i])
  ensures vs.contains(v), dot(f, v) < 0
{ let i = choose|i: int| 0 <= i < vs.len() && dot(f, #[trigger] vs[i]) < 0; assert(dot(f, vs[i]) >= dot(f, v)); }
pub proof fn lemma_all_rotate(k: int, s: Set<Seq<int>>, vs: Seq<Seq<int>>, f: Seq<int>, ms: Seq<Seq<Seq<(u64, i32)>>>)
  requires all_rotate(s, vs, f), are_maps(ms, f.len() as int)
  ensures rows_of(s, f.len() as int)
{ assert forall|x: Seq<int>| #[trigger] s.contains(x) implies x.len() == f.len() by { assert(rotates(x, vs, f)); } }
// the nearest vertex is tight when the row is valid, and lies off the facet otherwise
pub proof fn lemma_nearest(v: Seq<int>, pv: Seq<int>, r: Seq<int>, r0: Seq<int>, vs: Seq<Seq<int>>, f: Seq<int>)
  requires rect(vs, f.len()), valid_row(f, vs), vs.contains(pv), dot(r, pv) == 0, dot(f, pv) < 0, agrees(r, r0, vs, f), is_ridge(r0, vs, f), row_gcd(r) == 1, r.len() == f.len(),
    exists|i: int| 0 <= i < vs.len() && v == #[trigger] vs[i] && forall|j: int| 0 <= j < vs.len() ==> dot(r, #[trigger] vs[j]) <= dot(r, vs[i])
  ensures vs.contains(v), v.len() == f.len(), dot(r, v) >= 0, dot(r, v) == 0 ==> neighbour(r, r0, vs, f), dot(r, v) != 0 ==> dot(f, v) < 0
{
  let p = choose|p: int| 0 <= p < vs.len() && vs[p] == pv; assert(dot(r, vs[p]) == 0 && dot(f, vs[p]) < 0); assert(touches(r, vs, f));
  let i = choose|i: int| 0 <= i < vs.len() && v == #[trigger] vs[i] && forall|j: int| 0 <= j < vs.len() ==> dot(r, #[trigger] vs[j]) <= dot(r, vs[i]);
  assert(dot(r, vs[p]) <= dot(r, v)); assert(dot(f, vs[i]) <= 0); assert(vs[i].len() == f.len());
  if dot(f, v) == 0 { assert(sgn(dot(r, vs[i])) == sgn(dot(r0, vs[i]))); assert(dot(r0, vs[i]) <= 0); }
}
