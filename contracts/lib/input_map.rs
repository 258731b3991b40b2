pub open spec fn refers(m: Seq<(u64, i32)>, n: int) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 < n }
pub open spec fn images(m: Seq<Seq<(u64, i32)>>, n: int) -> bool { forall|i: int| 0 <= i < m.len() ==> refers(#[trigger] m[i], n) }
pub open spec fn signs() -> Seq<i8> { seq![43i8, 45i8] }
pub open spec fn digits() -> Seq<i8> { seq![48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8] }
pub open spec fn signs_digits() -> Seq<i8> { seq![43i8, 45i8, 48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8] }
pub proof fn lemma_signs_digits()
  ensures forall|c: i8| #[trigger] signs().contains(c) <==> c == 43 || c == 45, forall|c: i8| #[trigger] digits().contains(c) <==> 48 <= c <= 57, forall|c: i8| #[trigger] signs_digits().contains(c) <==> c == 43 || c == 45 || 48 <= c <= 57
{
  assert forall|c: i8| c == 43 || c == 45 implies #[trigger] signs().contains(c) by { assert(signs()[if c == 43 { 0int } else { 1int }] == c); }
  assert forall|c: i8| 48 <= c <= 57 implies #[trigger] digits().contains(c) by { assert(digits()[c - 48] == c); }
  assert forall|c: i8| c == 43 || c == 45 || 48 <= c <= 57 implies #[trigger] signs_digits().contains(c) by { assert(signs_digits()[if c == 43 { 0int } else if c == 45 { 1int } else { c - 46 }] == c); }
}
