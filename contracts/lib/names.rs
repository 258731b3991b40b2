// does a name occur in the text?  The search starts a new word behind every character with which no name goes on, and
// gives up at the end of a word behind 2000 characters.  The end of the input reads like the character 255.
pub open spec fn name_prefix(names: Seq<Seq<i8>>, w: Seq<i8>) -> bool { exists|i: int| 0 <= i < names.len() && w.len() <= (#[trigger] names[i]).len() && names[i].take(w.len() as int) =~= w }
pub open spec fn one_of(names: Seq<Seq<i8>>, w: Seq<i8>) -> bool { exists|i: int| 0 <= i < names.len() && #[trigger] names[i] =~= w }
pub open spec fn name_scan(names: Seq<Seq<i8>>, t: Seq<i8>, p: int, c: int, q: int) -> bool decreases t.len() - q {
  if !(0 <= c <= q < t.len()) { false }
  else { let w = t.subrange(c, q + 1); if one_of(names, w) { true } else if name_prefix(names, w) { name_scan(names, t, p, c, q + 1) } else if q + 1 >= p + 2000 { false } else { name_scan(names, t, p, q + 1, q + 1) } }
}
pub open spec fn has_names(names: Seq<Seq<i8>>, s: Seq<i8>, p: int) -> bool { name_scan(names, s.push(-1i8), p, p, p) }
// found means that a name is there
pub proof fn lemma_scan_sound(names: Seq<Seq<i8>>, t: Seq<i8>, p: int, c: int, q: int)
  requires name_scan(names, t, p, c, q)
  ensures exists|a: int, b: int| c <= a < b <= t.len() && one_of(names, #[trigger] t.subrange(a, b))
  decreases t.len() - q
{
  let w = t.subrange(c, q + 1);
  if one_of(names, w) { } else if name_prefix(names, w) { lemma_scan_sound(names, t, p, c, q + 1); } else { lemma_scan_sound(names, t, p, q + 1, q + 1); }
}
// a name at a, in a word that begins at b: what separates it occurs in no name, what precedes it in its word begins none
pub open spec fn in_no_name(names: Seq<Seq<i8>>, x: i8) -> bool { forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names[i].len() ==> #[trigger] names[i][j] != x }
pub open spec fn begins_none(names: Seq<Seq<i8>>, x: i8) -> bool { forall|i: int| 0 <= i < names.len() && 0 < (#[trigger] names[i]).len() ==> names[i][0] != x }
pub open spec fn clear_name(names: Seq<Seq<i8>>, t: Seq<i8>, p: int, b: int, a: int, i: int) -> bool {
  0 <= p <= b <= a && 0 <= i < names.len() && 0 < names[i].len() && a + names[i].len() <= t.len() && t.subrange(a, a + names[i].len()) =~= names[i]
  && (b == p || in_no_name(names, t[b - 1])) && (forall|j: int| b <= j < a ==> begins_none(names, #[trigger] t[j])) && a < p + 2000
}
// every such name is found
pub proof fn lemma_scan_complete(names: Seq<Seq<i8>>, t: Seq<i8>, p: int, c: int, q: int, b: int, a: int, i: int)
  requires clear_name(names, t, p, b, a, i), p <= c <= a, c <= q, q == c || name_prefix(names, t.subrange(c, q)), c == a ==> q < a + names[i].len(), c < b ==> q < b, b <= c < a ==> q == c, q < t.len()
  ensures name_scan(names, t, p, c, q)
  decreases t.len() - q
{
  let w = t.subrange(c, q + 1);
  if !one_of(names, w) {
    if c == a {
      assert(names[i].take(w.len() as int) =~= w) by { assert forall|j: int| 0 <= j < w.len() implies names[i][j] == w[j] by { assert(t.subrange(a, a + names[i].len())[j] == names[i][j]); } }
      if q + 1 == a + names[i].len() { assert(w =~= names[i]); }
      lemma_scan_complete(names, t, p, c, q + 1, b, a, i);
    } else if name_prefix(names, w) {
      let k = choose|k: int| 0 <= k < names.len() && w.len() <= (#[trigger] names[k]).len() && names[k].take(w.len() as int) =~= w;
      if b <= c { assert(w[0] == t[c]); assert(names[k].take(w.len() as int)[0] == names[k][0]); assert(begins_none(names, t[c])); }
      else if q + 1 >= b { let j = b - 1 - c; assert(w[j] == t[b - 1]); assert(names[k].take(w.len() as int)[j] == names[k][j]); assert(in_no_name(names, t[b - 1])); }
      lemma_scan_complete(names, t, p, c, q + 1, b, a, i);
    } else {
      lemma_scan_complete(names, t, p, q + 1, q + 1, b, a, i);
    }
  }
}
