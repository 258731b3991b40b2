// std::sort with operator<
pub open spec fn u64_leq() -> spec_fn(u64, u64) -> bool { |a: u64, b: u64| a <= b }
pub open spec fn std_sort(s: Seq<u64>) -> Seq<u64> { s.sort_by(u64_leq()) }
pub open spec fn seq_sorted(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub proof fn axiom_std_sort(s: Seq<u64>)
  ensures std_sort(s).len() == s.len(), seq_sorted(std_sort(s)), std_sort(s).to_multiset() =~= s.to_multiset(), forall|x: u64| #[trigger] std_sort(s).contains(x) <==> s.contains(x)
{
  s.lemma_sort_by_ensures(u64_leq());
  let t = std_sort(s);
  assert(t.to_multiset() =~= s.to_multiset());
  s.to_multiset_ensures(); t.to_multiset_ensures();
  assert(t.len() == s.len());
  assert forall|x: u64| #[trigger] t.contains(x) <==> s.contains(x) by { assert(t.to_multiset().count(x) == s.to_multiset().count(x)); assert(s.contains(x) <==> s.to_multiset().count(x) > 0); assert(t.contains(x) <==> t.to_multiset().count(x) > 0); }
  assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] <= #[trigger] t[j] by { if i < j { assert(u64_leq()(t[i], t[j])); } }
}
pub proof fn lemma_sort_distinct(s: Seq<u64>) requires s.no_duplicates()
  ensures forall|i: int, j: int| 0 <= i < j < std_sort(s).len() ==> #[trigger] std_sort(s)[i] < #[trigger] std_sort(s)[j]
{
  axiom_std_sort(s); let t = std_sort(s);
  s.lemma_multiset_has_no_duplicates();
  assert(t.to_multiset() =~= s.to_multiset());
  assert forall|x: u64| t.to_multiset().contains(x) implies t.to_multiset().count(x) == 1 by {}
  t.lemma_multiset_has_no_duplicates_conv();
}
// std::sort with a comparator (the standard's definition: a sorted permutation, for a strict weak ordering)
pub open spec fn strict_weak<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> bool {
  &&& forall|a: T| s.contains(a) ==> !(#[trigger] less(a, a))
  &&& forall|a: T, b: T, c: T| s.contains(a) && s.contains(b) && s.contains(c) && #[trigger] less(a, b) && #[trigger] less(b, c) ==> less(a, c)
  &&& forall|a: T, b: T, c: T| s.contains(a) && s.contains(b) && s.contains(c) && #[trigger] less(a, c) ==> #[trigger] less(a, b) || less(b, c)
}
pub uninterp spec fn std_sort_by<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> Seq<T>;
#[verifier::external_body]
pub proof fn axiom_std_sort_by<T>(s: Seq<T>, less: spec_fn(T, T) -> bool)
  requires strict_weak(s, less)
  ensures std_sort_by(s, less).len() == s.len(), std_sort_by(s, less).to_multiset() == s.to_multiset(), forall|x: T| #[trigger] std_sort_by(s, less).contains(x) <==> s.contains(x),
    forall|i: int| 0 <= i < s.len() ==> s.contains(#[trigger] std_sort_by(s, less)[i]),
    forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] std_sort_by(s, less)[j], #[trigger] std_sort_by(s, less)[i])
{}
