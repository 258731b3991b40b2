// the first k equations as two opposite inequalities each
pub open spec fn both(e: Seq<Seq<int>>, k: int) -> Seq<Seq<int>> decreases k { if k <= 0 { Seq::empty() } else { both(e, k - 1).push(e[k - 1]).push(vscale(e[k - 1], -1)) } }
// 0 x <= 1
pub open spec fn trivial(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| if i == n - 1 { -1int } else { 0int }) }
pub open spec fn maps_apply(maps: Seq<Seq<Seq<(u64, i32)>>>, rows: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < rows.len() && 0 <= j < maps.len() ==> (#[trigger] maps[j]).len() == (#[trigger] rows[i]).len() }
pub proof fn lemma_same_len(a: Seq<Seq<int>>, b: Seq<Seq<int>>, n: int)
  requires all_len(b, n), a.len() == b.len(), forall|x: Seq<int>| #[trigger] a.contains(x) <==> b.contains(x)
  ensures all_len(a, n)
{
  assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() == n by { assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].len() == n); }
}
pub open spec fn self_maps(maps: Seq<Seq<Seq<(u64, i32)>>>) -> bool { forall|j: int| 0 <= j < maps.len() ==> is_map(#[trigger] maps[j], maps[j].len() as int) }
pub proof fn lemma_self_maps(maps: Seq<Seq<Seq<(u64, i32)>>>, rows: Seq<Seq<int>>)
  requires self_maps(maps), maps_apply(maps, rows), rows.len() > 0 ensures are_maps(maps, rows[0].len() as int), maps.len() > 0 ==> rect(rows, rows[0].len())
{
  assert forall|j: int| 0 <= j < maps.len() implies is_map(#[trigger] maps[j], rows[0].len() as int) by { assert(maps[j].len() == rows[0].len()); }
  if maps.len() > 0 { assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] rows[i]).len() == rows[0].len() by { assert(maps[0].len() == rows[i].len()); assert(maps[0].len() == rows[0].len()); } }
}
pub proof fn lemma_expanded_filled(kind: int, maps: Seq<Seq<Seq<(u64, i32)>>>, rows: Seq<Seq<int>>, k: int, all: Seq<Seq<int>>)
  requires expanded(kind, maps, rows, k, all), filled(rows), k <= rows.len() ensures filled(all) decreases k
{
  if k > 0 {
    let (c, n) = choose|c: Set<Seq<int>>, n: int| #![trigger is_class(kind, maps, rows[k - 1], c), all.take(n)] 0 <= n <= all.len() && is_class(kind, maps, rows[k - 1], c) && rows_of(c, rows[k - 1].len() as int) && all.skip(n) =~= set_enum(c) && expanded(kind, maps, rows, k - 1, all.take(n));
    lemma_expanded_filled(kind, maps, rows, k - 1, all.take(n)); axiom_set_enum(c);
    assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).len() > 0 by {
      if i < n { assert(all[i] == all.take(n)[i]); } else { assert(all[i] == all.skip(n)[i - n]); assert(set_enum(c).contains(set_enum(c)[i - n])); assert(c.contains(all[i])); assert(rows[k - 1].len() > 0); }
    }
  }
}
pub proof fn lemma_independent(e: Seq<Seq<int>>, a: Seq<Seq<int>>, n: int) requires equations_of(e, a, n), n > 0 ensures propers(e, n as nat), echelon(e, n)
{
  assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).len() == n && proper(e[i]) && 0 <= lead(e[i]) < n by { lemma_lead(e[i]); assert(row_gcd(e[i]) == 1 && proper(e[i])); }
  assert forall|k: int, l: int| 0 <= k < l < e.len() implies e[l][lead(#[trigger] e[k])] == 0 && (#[trigger] e[l]).len() == n by { assert(e[l][lead(e[k])] == 0); }
}
// equations that reduce rows and maps of the dimension of the maps
pub open spec fn suits(e: Seq<Seq<int>>, maps: Seq<Seq<Seq<(u64, i32)>>>) -> bool { (maps.len() == 0 ==> e.len() == 0) && forall|j: int| 0 <= j < maps.len() ==> propers(e, (#[trigger] maps[j]).len()) && echelon(e, maps[j].len() as int) }
pub open spec fn sorted_as(a: Asked, given: Seq<Seq<int>>, s: Seq<Seq<int>>) -> bool { s.to_multiset() =~= given.to_multiset() && s.len() == given.len() && exists|o: i32| #[trigger] order_asked(a, o) && in_order(o, given, s) }
pub open spec fn with_equations(given: Seq<Seq<int>>, eqs: Seq<Seq<int>>) -> Seq<Seq<int>> { given + both(eqs, eqs.len() as int) }
pub open spec fn in_normal_form(r: Seq<int>, e: Seq<Seq<int>>) -> bool { exists|x: Seq<int>| #[trigger] primitive(redall(x, e)) == r }
// rows and maps in normal form modulo equations
pub open spec fn normal_input(rows: Seq<Seq<int>>, ms: Seq<Seq<Seq<(u64, i32)>>>, maps: Seq<Seq<Seq<(u64, i32)>>>, e: Seq<Seq<int>>) -> bool {
  suits(e, maps) && ms.len() == maps.len() && (forall|k: int| 0 <= k < ms.len() ==> normal_map(#[trigger] ms[k], maps[k], e)) && forall|i: int| 0 <= i < rows.len() ==> in_normal_form(#[trigger] rows[i], e) }
