// relation operators (numbers as in enum RelationOperator): >= is 0, = is 1, <= is 2, none 3
pub open spec fn is_rel(s: Seq<i8>, p: int) -> bool { 60 <= ch(s, p) <= 62 && (ch(s, p + 1) == 61 || is_blank(ch(s, p + 1))) }
pub open spec fn rel_at(s: Seq<i8>, p: int) -> Option<(int, int)> {
  if ch(s, p) == 60 && ch(s, p + 1) == 61 { Some((2, p + 2)) }
  else if ch(s, p) == 62 && ch(s, p + 1) == 61 { Some((0, p + 2)) }
  else if ch(s, p) == 61 && ch(s, p + 1) == 61 { Some((1, p + 2)) }
  else if ch(s, p) == 61 && is_blank(ch(s, p + 1)) { Some((1, p + 1)) }
  else { None }
}
// a factor: nothing and a sign alone stand for a one
pub open spec fn to_int(t: Seq<i8>) -> Option<int> {
  if t.len() == 0 || t =~= seq![43i8] { Some(1) } else if t =~= seq![45i8] { Some(-1) }
  else { match int_at(t, 0) { None => None, Some((v, r)) => if r == t.len() { Some(v) } else { None } } }
}
