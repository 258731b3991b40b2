// validity of inequalities, vertices and maps
pub open spec fn tight(e: Seq<int>) -> spec_fn(Seq<int>) -> bool { |r: Seq<int>| dot(e, r) == 0 }
pub open spec fn satisfied(m: Seq<Seq<int>>, e: Seq<int>) -> bool { forall|i: int| 0 <= i < m.len() ==> dot(e, #[trigger] m[i]) <= 0 }
// every row satisfies e, some rows are tight, and the tight rows span one dimension less
pub open spec fn facet(m: Seq<Seq<int>>, e: Seq<int>, d: int) -> bool { satisfied(m, e) && keep(m, tight(e)).len() > 0 && rank(keep(m, tight(e)), e.len()) + 1 == d }
pub open spec fn facets(m: Seq<Seq<int>>, d: int) -> spec_fn(Seq<int>) -> bool { |e: Seq<int>| facet(m, e, d) }
pub open spec fn valid_in(m: Seq<Seq<int>>) -> spec_fn(Seq<int>) -> bool { facets(m, rank(m, m[0].len()) as int) }
pub open spec fn all_facets(m: Seq<Seq<int>>, es: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < es.len() ==> facet(m, #[trigger] es[i], rank(m, m[0].len())) }
pub proof fn lemma_keep_step(m: Seq<Seq<int>>, e: Seq<int>, i: int) requires 0 <= i < m.len()
  ensures keep(m.take(i + 1), tight(e)) == (if dot(e, m[i]) == 0 { keep(m.take(i), tight(e)).push(m[i]) } else { keep(m.take(i), tight(e)) })
{ assert(m.take(i + 1).drop_last() =~= m.take(i)); }
pub proof fn lemma_keep_rect(m: Seq<Seq<int>>, p: spec_fn(Seq<int>) -> bool, n: nat) requires rect(m, n) ensures rect(keep(m, p), n)
{ lemma_keep(m, p); assert forall|i: int| 0 <= i < keep(m, p).len() implies (#[trigger] keep(m, p)[i]).len() == n by { assert(m.contains(keep(m, p)[i])); } }
pub proof fn lemma_keep_all(m: Seq<Seq<int>>, e: Seq<int>) ensures keep(m.take(m.len() as int), tight(e)) == keep(m, tight(e)) { assert(m.take(m.len() as int) =~= m); }
// erasing while walking: the part in front is the kept prefix, the part behind is untouched
pub open spec fn filtering(s: Seq<Seq<int>>, t: Seq<Seq<int>>, i: int, p: spec_fn(Seq<int>) -> bool) -> bool {
  0 <= i <= s.len() && s.len() <= t.len() && s.take(i) == keep(t.take(t.len() - s.len() + i), p) && s.skip(i) == t.skip(t.len() - s.len() + i) }
pub proof fn lemma_filtering_keep(s: Seq<Seq<int>>, t: Seq<Seq<int>>, i: int, p: spec_fn(Seq<int>) -> bool) requires filtering(s, t, i, p), i < s.len(), p(s[i]) ensures filtering(s, t, i + 1, p)
{ let j = t.len() - s.len() + i; assert(s.skip(i)[0] == t.skip(j)[0]); assert(t.take(j + 1).drop_last() =~= t.take(j)); assert(s.take(i + 1) =~= s.take(i).push(s[i])); assert(t[j] == s[i]);
  assert forall|q: int| 0 <= q < s.len() - i - 1 implies #[trigger] s.skip(i + 1)[q] == t.skip(j + 1)[q] by { assert(s.skip(i)[q + 1] == t.skip(j)[q + 1]); } assert(s.skip(i + 1) =~= t.skip(j + 1)); }
pub proof fn lemma_filtering_drop(s: Seq<Seq<int>>, t: Seq<Seq<int>>, i: int, p: spec_fn(Seq<int>) -> bool) requires filtering(s, t, i, p), i < s.len(), !p(s[i]) ensures filtering(s.remove(i), t, i, p)
{ let j = t.len() - s.len() + i; let u = s.remove(i); assert(s.skip(i)[0] == t.skip(j)[0]); assert(t.take(j + 1).drop_last() =~= t.take(j)); assert(u.take(i) =~= s.take(i));
  assert forall|q: int| 0 <= q < s.len() - i - 1 implies #[trigger] u.skip(i)[q] == t.skip(j + 1)[q] by { assert(s.skip(i)[q + 1] == t.skip(j)[q + 1]); } assert(u.skip(i) =~= t.skip(j + 1)); }
// a map permutes the rows: every image is a row, different positions have different images
pub open spec fn image_of(k: int, map: Seq<Seq<(u64, i32)>>, row: Seq<int>) -> Seq<int> { primitive(if k == 0 { facet_image(map, row) } else { vertex_image(map, row) }) }
pub open spec fn permutes(k: int, map: Seq<Seq<(u64, i32)>>, m: Seq<Seq<int>>) -> bool {
  (forall|i: int| 0 <= i < m.len() ==> m.contains(#[trigger] image_of(k, map, m[i]))) && (forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] image_of(k, map, m[i]) != #[trigger] image_of(k, map, m[j])) }
pub open spec fn all_permute(k: int, maps: Seq<Seq<Seq<(u64, i32)>>>, m: Seq<Seq<int>>) -> bool { forall|q: int| 0 <= q < maps.len() ==> permutes(k, #[trigger] maps[q], m) }
pub open spec fn first_at(m: Seq<Seq<int>>, x: Seq<int>, i: int) -> bool { 0 <= i < m.len() && m[i] == x && forall|j: int| 0 <= j < i ==> #[trigger] m[j] != x }
pub open spec fn positions(k: int, map: Seq<Seq<(u64, i32)>>, m: Seq<Seq<int>>, ix: Seq<u64>, n: int) -> bool {
  ix.len() == m.len() && forall|i: int| 0 <= i < n ==> first_at(m, image_of(k, map, m[i]), (#[trigger] ix[i]) as int) }
pub open spec fn counts(s: Seq<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == i }
pub proof fn lemma_strict_counts(s: Seq<u64>, i: int) requires 0 <= i < s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b], forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] < s.len() ensures s[i] == i
{ lemma_strict_low(s, i); lemma_strict_high(s, i); }
pub proof fn lemma_strict_low(s: Seq<u64>, i: int) requires 0 <= i < s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b] ensures s[i] >= i decreases i { if i > 0 { lemma_strict_low(s, i - 1); } }
pub proof fn lemma_strict_high(s: Seq<u64>, i: int) requires 0 <= i < s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b], forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] < s.len() ensures s[i] <= i decreases s.len() - i { if i + 1 < s.len() { lemma_strict_high(s, i + 1); } }
pub proof fn lemma_counts(k: int, map: Seq<Seq<(u64, i32)>>, m: Seq<Seq<int>>, ix: Seq<u64>) requires positions(k, map, m, ix, m.len() as int) ensures counts(std_sort(ix)) <==> permutes(k, map, m)
{
  axiom_std_sort(ix); let s = std_sort(ix);
  assert forall|i: int| 0 <= i < m.len() implies m.contains(#[trigger] image_of(k, map, m[i])) by { assert(first_at(m, image_of(k, map, m[i]), ix[i] as int)); }
  if permutes(k, map, m) {
    assert(ix.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ix.len() && 0 <= j < ix.len() && i != j implies ix[i] != ix[j] by { assert(m[ix[i] as int] == image_of(k, map, m[i])); assert(m[ix[j] as int] == image_of(k, map, m[j])); if i < j { assert(image_of(k, map, m[i]) != image_of(k, map, m[j])); } else { assert(image_of(k, map, m[j]) != image_of(k, map, m[i])); } } }
    lemma_sort_distinct(ix);
    assert forall|a: int| 0 <= a < s.len() implies #[trigger] s[a] < s.len() by { assert(s.contains(s[a])); assert(ix.contains(s[a])); let b = choose|b: int| 0 <= b < ix.len() && ix[b] == s[a]; assert(first_at(m, image_of(k, map, m[b]), ix[b] as int)); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == i by { lemma_strict_counts(s, i); }
  }
  if counts(s) {
    assert(s.no_duplicates()); s.lemma_multiset_has_no_duplicates(); assert(s.to_multiset() =~= ix.to_multiset());
    assert forall|x: u64| ix.to_multiset().contains(x) implies ix.to_multiset().count(x) == 1 by {}
    ix.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] image_of(k, map, m[i]) != #[trigger] image_of(k, map, m[j]) by {
      if image_of(k, map, m[i]) == image_of(k, map, m[j]) { assert(first_at(m, image_of(k, map, m[i]), ix[i] as int)); assert(first_at(m, image_of(k, map, m[j]), ix[j] as int)); if ix[i] < ix[j] { assert(m[ix[i] as int] != image_of(k, map, m[j])); } else if ix[j] < ix[i] { assert(m[ix[j] as int] != image_of(k, map, m[i])); } assert(ix[i] == ix[j]); } }
  }
}
