// std::set of rows: enumerated in lexicographic order
pub open spec fn lexlt(a: Seq<int>, b: Seq<int>) -> bool decreases b.len() { if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { lexlt(a.drop_first(), b.drop_first()) } }
pub open spec fn lexle() -> spec_fn(Seq<int>, Seq<int>) -> bool { |a: Seq<int>, b: Seq<int>| a == b || lexlt(a, b) }
pub proof fn lemma_lex_total(a: Seq<int>, b: Seq<int>) ensures a == b || lexlt(a, b) || lexlt(b, a), !(lexlt(a, b) && lexlt(b, a)), !lexlt(a, a) decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_lex_total(a.drop_first(), b.drop_first()); if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); } } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); } 
  if a.len() > 0 { lemma_lex_total(a.drop_first(), a.drop_first()); } }
pub proof fn lemma_lex_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires lexlt(a, b), lexlt(b, c) ensures lexlt(a, c) decreases a.len()
{ if a.len() > 0 { if a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } } }
pub open spec fn set_enum(s: Set<Seq<int>>) -> Seq<Seq<int>> { s.to_seq().sort_by(lexle()) }
pub proof fn axiom_set_enum(s: Set<Seq<int>>)
  ensures set_enum(s).len() == s.len(), forall|x: Seq<int>| #[trigger] set_enum(s).contains(x) <==> s.contains(x), forall|i: int, j: int| 0 <= i < j < set_enum(s).len() ==> lexlt(#[trigger] set_enum(s)[i], #[trigger] set_enum(s)[j])
{
  let q = s.to_seq(); let t = set_enum(s);
  assert(vstd::relations::total_ordering(lexle())) by {
    assert forall|a: Seq<int>, b: Seq<int>| #[trigger] lexle()(a, b) || lexle()(b, a) by { lemma_lex_total(a, b); }
    assert forall|a: Seq<int>, b: Seq<int>| #[trigger] lexle()(a, b) && #[trigger] lexle()(b, a) implies a == b by { lemma_lex_total(a, b); }
    assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| #[trigger] lexle()(a, b) && #[trigger] lexle()(b, c) implies lexle()(a, c) by { if a != b && b != c { lemma_lex_trans(a, b, c); } }
  }
  s.lemma_to_seq_to_set_id();
  s.lemma_to_seq_no_duplicates();
  q.lemma_sort_by_ensures(lexle());
  q.to_multiset_ensures(); t.to_multiset_ensures();
  q.unique_seq_to_set();
  assert forall|x: Seq<int>| #[trigger] t.contains(x) <==> s.contains(x) by { assert(t.to_multiset().count(x) == q.to_multiset().count(x)); assert(q.contains(x) <==> q.to_set().contains(x)); }
  q.lemma_multiset_has_no_duplicates();
  assert(t.to_multiset() =~= q.to_multiset());
  assert forall|x: Seq<int>| t.to_multiset().contains(x) implies t.to_multiset().count(x) == 1 by {}
  t.lemma_multiset_has_no_duplicates_conv();
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies lexlt(#[trigger] t[i], #[trigger] t[j]) by { assert(lexle()(t[i], t[j])); assert(t[i] != t[j]); }
}
