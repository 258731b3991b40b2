pub open spec fn lex_less() -> spec_fn(Seq<int>, Seq<int>) -> bool { |x: Seq<int>, y: Seq<int>| lexlt(x, y) }
pub proof fn lemma_lex_facts()
  ensures forall|a: Seq<int>| !(#[trigger] lexlt(a, a)),
    forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| #[trigger] lexlt(a, b) && #[trigger] lexlt(b, c) ==> lexlt(a, c),
    forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| #[trigger] lexlt(a, c) ==> #[trigger] lexlt(a, b) || lexlt(b, c)
{
  assert forall|a: Seq<int>| !(#[trigger] lexlt(a, a)) by { lemma_lex_total(a, a); }
  assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| #[trigger] lexlt(a, b) && #[trigger] lexlt(b, c) implies lexlt(a, c) by { lemma_lex_trans(a, b, c); }
  assert forall|a: Seq<int>, b: Seq<int>, c: Seq<int>| #[trigger] lexlt(a, c) implies #[trigger] lexlt(a, b) || lexlt(b, c) by {
    lemma_lex_total(a, b); lemma_lex_total(b, c); lemma_lex_total(a, c);
    if !lexlt(a, b) && !lexlt(b, c) { if a == b { } else if b == c { } else { lemma_lex_trans(c, b, a); } }
  }
}
pub proof fn lemma_reverse_multiset<T>(s: Seq<T>) ensures s.reverse().to_multiset() =~= s.to_multiset() decreases s.len()
{
  s.to_multiset_ensures(); s.reverse().to_multiset_ensures();
  if s.len() > 0 {
    let d = s.drop_last(); let x = s[s.len() - 1]; lemma_reverse_multiset(d);
    assert(s =~= d.push(x)); assert(s.reverse() =~= seq![x] + d.reverse());
    d.to_multiset_ensures(); seq![x].to_multiset_ensures();
    lemma_multiset_commutative(seq![x], d.reverse());
    lemma_multiset_commutative(d, seq![x]);
    assert(d.push(x) =~= d + seq![x]);
  } else { assert(s.reverse() =~= s); }
}
pub proof fn lemma_sort_rows(s: Seq<Seq<int>>)
  ensures ({ let u = std_sort_by(s, lex_less()); u.to_multiset() =~= s.to_multiset() && u.len() == s.len() && (forall|i: int, j: int| 0 <= i < j < u.len() ==> !lexlt(#[trigger] u[j], #[trigger] u[i])) }),
    ({ let u = std_sort_by(s.reverse(), lex_less()).reverse(); u.to_multiset() =~= s.to_multiset() && u.len() == s.len() && (forall|i: int, j: int| 0 <= i < j < u.len() ==> !lexlt(#[trigger] u[i], #[trigger] u[j])) })
{
  lemma_lex_facts();
  let f = lex_less();
  assert(strict_weak(s, f)); assert(strict_weak(s.reverse(), f));
  axiom_std_sort_by(s, f); axiom_std_sort_by(s.reverse(), f);
  lemma_reverse_multiset(s);
  let w = std_sort_by(s.reverse(), f); lemma_reverse_multiset(w);
  let u = w.reverse();
  assert forall|i: int, j: int| 0 <= i < j < u.len() implies !lexlt(#[trigger] u[i], #[trigger] u[j]) by { assert(u[i] == w[w.len() - 1 - i]); assert(u[j] == w[w.len() - 1 - j]); assert(!f(w[w.len() - 1 - i], w[w.len() - 1 - j])); }
  let v = std_sort_by(s, f);
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies !lexlt(#[trigger] v[j], #[trigger] v[i]) by { assert(!f(v[j], v[i])); }
}
pub proof fn lemma_zeros(r: Seq<int>) ensures zeros(r) <= r.len() { lemma_count_len(r, |x: int| x == 0int); }
pub proof fn lemma_count_len<T>(s: Seq<T>, p: spec_fn(T) -> bool) ensures seq_count(s, p) <= s.len() { s.lemma_filter_len(p); }
pub open spec fn zeros(r: Seq<int>) -> nat { seq_count(r, |x: int| x == 0int) }
pub open spec fn in_order(o: i32, given: Seq<Seq<int>>, s: Seq<Seq<int>>) -> bool {
  &&& o == 0 ==> s =~= given
  &&& o == 1 ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> !lexlt(#[trigger] s[j], #[trigger] s[i])
  &&& o == 2 ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> !lexlt(#[trigger] s[i], #[trigger] s[j])
  &&& o == 3 ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> zeros(#[trigger] s[i]) >= zeros(#[trigger] s[j])
  &&& o == 4 ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> zeros(#[trigger] s[i]) <= zeros(#[trigger] s[j])
  &&& o == 5 ==> s =~= given.reverse()
}
// the classes of the first k rows, one after the other, every class in lexicographic order
pub open spec fn expanded(kind: int, maps: Seq<Seq<Seq<(u64, i32)>>>, rows: Seq<Seq<int>>, k: int, all: Seq<Seq<int>>) -> bool decreases k {
  if k <= 0 { all.len() == 0 }
  else { exists|c: Set<Seq<int>>, n: int| #![trigger is_class(kind, maps, rows[k - 1], c), all.take(n)] 0 <= n <= all.len() && is_class(kind, maps, rows[k - 1], c) && rows_of(c, rows[k - 1].len() as int) && all.skip(n) =~= set_enum(c) && expanded(kind, maps, rows, k - 1, all.take(n)) }
}
pub proof fn lemma_expand(kind: int, maps: Seq<Seq<Seq<(u64, i32)>>>, rows: Seq<Seq<int>>, k: int, a: Seq<Seq<int>>, c: Set<Seq<int>>, b: Seq<Seq<int>>)
  requires k >= 0, expanded(kind, maps, rows, k, a), is_class(kind, maps, rows[k], c), rows_of(c, rows[k].len() as int), b =~= a + set_enum(c)
  ensures expanded(kind, maps, rows, k + 1, b)
{
  let n = a.len() as int;
  assert(b.skip(n) =~= set_enum(c)); assert(b.take(n) =~= a); assert(k + 1 - 1 == k); assert(is_class(kind, maps, rows[k + 1 - 1], c) && rows_of(c, rows[k].len() as int) && expanded(kind, maps, rows, k + 1 - 1, b.take(n)));
}
pub proof fn lemma_same_multiset<T>(s: Seq<T>)
  ensures forall|t: Seq<T>| #[trigger] t.to_multiset() =~= s.to_multiset() ==> t.len() == s.len() && forall|x: T| #[trigger] t.contains(x) <==> s.contains(x)
{
  s.to_multiset_ensures();
  assert forall|t: Seq<T>| #[trigger] t.to_multiset() =~= s.to_multiset() implies t.len() == s.len() && forall|x: T| #[trigger] t.contains(x) <==> s.contains(x) by {
    t.to_multiset_ensures();
    assert forall|x: T| #[trigger] t.contains(x) <==> s.contains(x) by { assert(t.to_multiset().count(x) == s.to_multiset().count(x)); }
  }
}
