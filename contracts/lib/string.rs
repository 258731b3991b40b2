// std::string: searching for characters, substrings (npos is the greatest size)
pub open spec fn find_from<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) -> int decreases s.len() - i { if i >= s.len() || i < 0 { s.len() as int } else if p(s[i]) { i } else { find_from(s, i + 1, p) } }
pub open spec fn find_down<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) -> int decreases i + 1 { if i < 0 || i >= s.len() { -1 } else if p(s[i]) { i } else { find_down(s, i - 1, p) } }
pub open spec fn str_first_of(s: Seq<i8>, w: Seq<i8>, pos: int, inside: bool) -> u64 { let i = find_from(s, pos, |c: i8| w.contains(c) == inside); if i >= s.len() { u64::MAX } else { i as u64 } }
pub open spec fn str_last_of(s: Seq<i8>, w: Seq<i8>, pos: int, inside: bool) -> u64 { let i = find_down(s, if pos >= s.len() { s.len() - 1 } else { pos }, |c: i8| w.contains(c) == inside); if i < 0 { u64::MAX } else { i as u64 } }
pub open spec fn str_sub(s: Seq<i8>, pos: int, n: int) -> Seq<i8> { if pos > s.len() { Seq::empty() } else if n >= s.len() - pos { s.skip(pos) } else { s.subrange(pos, pos + n) } }
pub open spec fn str_cut(s: Seq<i8>, pos: int, n: int) -> Seq<i8> { if pos > s.len() { s } else if n >= s.len() - pos { s.take(pos) } else { s.take(pos) + s.skip(pos + n) } }
pub proof fn lemma_find_from<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) requires 0 <= i <= s.len() ensures i <= find_from(s, i, p) <= s.len(), find_from(s, i, p) < s.len() ==> p(s[find_from(s, i, p)]), forall|j: int| i <= j < find_from(s, i, p) ==> !p(#[trigger] s[j]) decreases s.len() - i
{ if i < s.len() && !p(s[i]) { lemma_find_from(s, i + 1, p); assert forall|j: int| i <= j < find_from(s, i, p) implies !p(#[trigger] s[j]) by {} } }
pub proof fn lemma_first_of(s: Seq<i8>, w: Seq<i8>, pos: int, inside: bool) requires 0 <= pos <= s.len() <= 0x7fff_ffff_ffff_fffe
  ensures ({ let r = str_first_of(s, w, pos, inside); (r == u64::MAX || pos <= r < s.len() && w.contains(s[r as int]) == inside) && forall|j: int| pos <= j < s.len() && j < r ==> w.contains(#[trigger] s[j]) != inside })
{ lemma_find_from(s, pos, |c: i8| w.contains(c) == inside); }
