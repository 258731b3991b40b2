// maps: image i is the list of terms (index, factor) of the linear form that gives coordinate i
pub open spec fn in_range(img: Seq<(u64, i32)>, n: int) -> bool { forall|k: int| 0 <= k < img.len() ==> (#[trigger] img[k]).0 < n }
pub open spec fn is_map(m: Seq<Seq<(u64, i32)>>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < m.len() ==> in_range(#[trigger] m[i], n) }
pub open spec fn are_maps(ms: Seq<Seq<Seq<(u64, i32)>>>, n: int) -> bool { forall|k: int| 0 <= k < ms.len() ==> is_map(#[trigger] ms[k], n) }
pub open spec fn form(img: Seq<(u64, i32)>, x: Seq<int>) -> int decreases img.len() { if img.len() == 0 { 0 } else { form(img.drop_last(), x) + img[img.len() - 1].1 * x[img[img.len() - 1].0 as int] } }
// the linear map: coordinate i is the form i at x
pub open spec fn vertex_image(m: Seq<Seq<(u64, i32)>>, x: Seq<int>) -> Seq<int> { Seq::new(x.len(), |i: int| form(m[i], x)) }
pub open spec fn add_form(img: Seq<(u64, i32)>, f: int, b: Seq<int>) -> Seq<int> decreases img.len() {
  if img.len() == 0 { b } else { let p = add_form(img.drop_last(), f, b); let t = img[img.len() - 1]; p.update(t.0 as int, p[t.0 as int] + t.1 * f) } }
pub open spec fn facet_upto(m: Seq<Seq<(u64, i32)>>, a: Seq<int>, i: int) -> Seq<int> decreases i { if i <= 0 { Seq::new(a.len(), |j: int| 0int) } else { add_form(m[i - 1], a[i - 1], facet_upto(m, a, i - 1)) } }
pub open spec fn facet_image(m: Seq<Seq<(u64, i32)>>, a: Seq<int>) -> Seq<int> { facet_upto(m, a, m.len() as int) }
pub proof fn lemma_dot_update(b: Seq<int>, k: int, d: int, x: Seq<int>)
  requires 0 <= k < b.len(), x.len() == b.len()
  ensures dot(b.update(k, b[k] + d), x) == dot(b, x) + d * x[k] decreases b.len()
{
  let c = b.update(k, b[k] + d); let n = b.len() - 1;
  if k == n { assert(c.drop_last() =~= b.drop_last()); assert((b[n] + d) * x[n] == b[n] * x[n] + d * x[n]) by (nonlinear_arith); }
  else { assert(c.drop_last() =~= b.drop_last().update(k, b.drop_last()[k] + d)); lemma_dot_update(b.drop_last(), k, d, x.drop_last());
    lemma_dot_prefix(b, x); lemma_dot_prefix(c, x); }
}
pub proof fn lemma_add_form(img: Seq<(u64, i32)>, f: int, b: Seq<int>)
  requires in_range(img, b.len() as int)
  ensures add_form(img, f, b).len() == b.len(), forall|x: Seq<int>| x.len() == b.len() ==> #[trigger] dot(add_form(img, f, b), x) == dot(b, x) + f * form(img, x)
  decreases img.len()
{
  if img.len() == 0 { assert forall|x: Seq<int>| x.len() == b.len() implies #[trigger] dot(add_form(img, f, b), x) == dot(b, x) + f * form(img, x) by { assert(f * 0 == 0); } }
  else {
    let q = img.drop_last(); let t = img[img.len() - 1]; let p = add_form(q, f, b);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).0 < b.len() by { assert(q[k] == img[k]); }
    lemma_add_form(q, f, b);
    assert(t.0 < b.len());
    assert forall|x: Seq<int>| x.len() == b.len() implies #[trigger] dot(add_form(img, f, b), x) == dot(b, x) + f * form(img, x) by {
      lemma_dot_update(p, t.0 as int, t.1 * f, x); assert(dot(p, x) == dot(b, x) + f * form(q, x));
      let y = x[t.0 as int]; let z = form(q, x); let e = t.1 as int; assert((e * f) * y + f * z == f * (z + e * y)) by (nonlinear_arith);
    }
  }
}
pub proof fn lemma_facet_upto(m: Seq<Seq<(u64, i32)>>, a: Seq<int>, i: int)
  requires is_map(m, a.len() as int), 0 <= i <= m.len()
  ensures facet_upto(m, a, i).len() == a.len(), forall|x: Seq<int>| x.len() == a.len() ==> #[trigger] dot(facet_upto(m, a, i), x) == dot(a.take(i), vertex_image(m, x).take(i))
  decreases i
{
  if i <= 0 {
    assert forall|x: Seq<int>| x.len() == a.len() implies #[trigger] dot(facet_upto(m, a, i), x) == dot(a.take(i), vertex_image(m, x).take(i)) by { lemma_dot_zero(facet_upto(m, a, i), x); }
  } else {
    lemma_facet_upto(m, a, i - 1); let p = facet_upto(m, a, i - 1); assert(in_range(m[i - 1], a.len() as int)); lemma_add_form(m[i - 1], a[i - 1], p);
    assert forall|x: Seq<int>| x.len() == a.len() implies #[trigger] dot(facet_upto(m, a, i), x) == dot(a.take(i), vertex_image(m, x).take(i)) by {
      let v = vertex_image(m, x).take(i);
      assert(dot(p, x) == dot(a.take(i - 1), vertex_image(m, x).take(i - 1)));
      assert(a.take(i).drop_last() =~= a.take(i - 1)); assert(v.drop_last() =~= vertex_image(m, x).take(i - 1)); lemma_dot_prefix(a.take(i), v);
      assert(v[i - 1] == form(m[i - 1], x));
    }
  }
}
// the facet image is the image under the transposed linear map
pub open spec fn adjoint(b: Seq<int>, m: Seq<Seq<(u64, i32)>>, a: Seq<int>) -> bool { b.len() == a.len() && forall|x: Seq<int>| x.len() == a.len() ==> #[trigger] dot(b, x) == dot(a, vertex_image(m, x)) }
pub proof fn lemma_facet_image(m: Seq<Seq<(u64, i32)>>, a: Seq<int>) requires is_map(m, a.len() as int) ensures adjoint(facet_image(m, a), m, a)
{
  lemma_facet_upto(m, a, m.len() as int); let b = facet_image(m, a);
  assert forall|x: Seq<int>| x.len() == a.len() implies #[trigger] dot(b, x) == dot(a, vertex_image(m, x)) by { assert(a.take(m.len() as int) =~= a); assert(vertex_image(m, x).take(m.len() as int) =~= vertex_image(m, x)); }
}
// r is b divided by a positive common factor, without a common divisor of its own (or zero like b)
pub open spec fn reduced(r: Seq<int>, b: Seq<int>) -> bool { r.len() == b.len() && row_gcd(r) <= 1 && exists|g: int| g > 0 && b =~= #[trigger] vscale(r, g) }
pub proof fn lemma_reduced(b: Seq<int>) ensures reduced(primitive(b), b)
{
  lemma_primitive(b); lemma_row_gcd(b);
  if row_gcd(b) > 0 { assert(b =~= vscale(primitive(b), row_gcd(b))); } else { assert(b =~= vscale(b, 1)); }
}
