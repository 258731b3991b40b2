// A constraint without names: coefficients, possibly a relation operator in front of the last one.
// State: coefficients so far, relation (3: none yet), whether the right hand side has been read.
pub open spec fn rel_fits(rel: int, equation: bool) -> bool { equation == (rel == 1) }
pub open spec fn plain_row(s: Seq<i8>, p: int, eq: bool, row: Seq<int>, rel: int, rhs: bool) -> Option<(Seq<int>, int, bool, int)> decreases s.len() - p {
  if eol_or_end(s, p) { Some((row, rel, rhs, p)) }
  else if is_rel(s, p) {
    match rel_at(s, p) { None => None, Some((r, q0)) => { let q = skip_blank(s, q0);
      if rel != 3 || !rel_fits(r, eq) || !(p < q <= s.len()) { None } else { plain_row(s, q, eq, row, r, rhs) } } } }
  else { match int_at(s, p) { None => None, Some((v, q0)) => { let q = skip_blank(s, q0);
    if rhs || !(p < q <= s.len()) { None } else { plain_row(s, q, eq, row.push(v), rel, rel != 3) } } } }
}
// in the form a x + b <= 0 (= 0)
pub open spec fn directed(row: Seq<int>, rel: int) -> Seq<int> { if rel == 0 { vscale(row, -1) } else { row } }
pub open spec fn plain_result(row: Seq<int>, rel: int) -> Seq<int> { if row.len() == 0 { row } else { directed(if rel != 3 { row.update(row.len() - 1, -row[row.len() - 1]) } else { row }, rel) } }
// the line behind the identifier
pub open spec fn con_start(s: Seq<i8>, p: int) -> Option<int> { let a = skip_blank(s, p); if ch(s, a) == 40 { if is_id(s, a) { Some(skip_blank(s, id_close(s, a) + 1)) } else { None } } else { Some(a) } }
// the constraint, the position of the end of its line
pub open spec fn plain_at(s: Seq<i8>, p: int, eq: bool) -> Option<(Seq<int>, int)> {
  match con_start(s, p) { None => None, Some(a) => match plain_row(s, a, eq, Seq::empty(), 3, false) { None => None, Some((row, rel, rhs, q)) => if rel != 3 && !rhs { None } else { Some((plain_result(row, rel), q)) } } }
}
pub proof fn lemma_con_start(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures con_start(s, p).is_some() ==> p <= con_start(s, p).unwrap() <= s.len() && !is_blank(ch(s, con_start(s, p).unwrap())), p <= skip_blank(s, p) <= s.len(), skip_blank(s, skip_blank(s, p)) == skip_blank(s, p)
{
  lemma_skip_blank(s, p); let a = skip_blank(s, p);
  if a < s.len() { lemma_skip_blank(s, a + 1); lemma_id_end(s, skip_blank(s, a + 1)); }
  if ch(s, a) == 40 { if is_id(s, a) { lemma_skip_blank(s, id_close(s, a) + 1); } }
}
pub proof fn lemma_plain_row(s: Seq<i8>, p: int, eq: bool, row: Seq<int>, rel: int, rhs: bool) requires 0 <= p <= s.len() ensures plain_row(s, p, eq, row, rel, rhs).is_some() ==> p <= plain_row(s, p, eq, row, rel, rhs).unwrap().3 <= s.len() && eol_or_end(s, plain_row(s, p, eq, row, rel, rhs).unwrap().3) decreases s.len() - p
{
  if eol_or_end(s, p) { }
  else if is_rel(s, p) { if let Some((r, q0)) = rel_at(s, p) { let q = skip_blank(s, q0); if p < q <= s.len() { lemma_plain_row(s, q, eq, row, r, rhs); } } }
  else if let Some((v, q0)) = int_at(s, p) { let q = skip_blank(s, q0); if p < q <= s.len() { lemma_plain_row(s, q, eq, row.push(v), rel, rel != 3); } }
}
// sizes of what one step reads
pub proof fn lemma_tokens(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures rel_at(s, p).is_some() ==> p < rel_at(s, p).unwrap().1 <= s.len(), int_at(s, p).is_some() ==> p < int_at(s, p).unwrap().1 <= s.len() { lemma_int_at(s, p); }
