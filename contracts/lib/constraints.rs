// a constraint: in the notation with names if there are names and one occurs in the text that follows
#[verifier::opaque]
pub open spec fn con_at(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>) -> Option<(Seq<int>, int)> { if names.len() == 0 || !has_names(names, s, p) { plain_at(s, p, eq) } else { named_at(s, p, eq, names) } }
pub open spec fn con_next(s: Seq<i8>, q: int) -> int { skip_eol(s, skip_blank(s, q)) }
pub open spec fn and_row(c: Seq<Seq<int>>, r: Seq<int>) -> Seq<Seq<int>> { if r.len() == 0 { c } else { c.push(r) } }
// a section of constraints: up to a line with a keyword or up to the end; lines without any text (or with an identifier only) are skipped
#[verifier::opaque]
pub open spec fn cons(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>, c: Seq<Seq<int>>) -> Option<(Seq<Seq<int>>, int)> decreases s.len() - p {
  if !(0 <= p < s.len()) { Some((c, p)) }
  else if keyword(trim(line_at(s, p))) { Some((c, p)) }
  else if trim(line_at(s, p)).len() == 0 { if !(p < next_line(s, p) <= s.len()) { None } else { cons(s, next_line(s, p), eq, names, c) } }
  else { match con_at(s, p, eq, names) { None => None, Some((r, q)) => if !(p < con_next(s, q) <= s.len()) { None } else { cons(s, con_next(s, q), eq, names, and_row(c, r)) } } }
}
pub proof fn lemma_trim_nothing(t: Seq<i8>) requires forall|i: int| 0 <= i < t.len() ==> blank8(#[trigger] t[i]) ensures trim(t).len() == 0
{ let p = |c: i8| !blank8(c); lemma_find_from(t, 0, p); if find_from(t, 0, p) < t.len() { assert(p(t[find_from(t, 0, p)])); } assert(trim_front(t).len() == 0); }
pub proof fn lemma_blanks_only(s: Seq<i8>, p: int, q: int) requires 0 <= p <= q <= s.len(), q <= skip_blank(s, p) ensures forall|i: int| p <= i < q ==> blank8(#[trigger] s[i]) decreases q - p { if p < q { if is_blank(ch(s, p)) { lemma_blanks_only(s, p + 1, q); } assert(blank8(s[p])); } }
// there is text on the line
pub proof fn lemma_text(s: Seq<i8>, p: int) requires 0 <= p <= s.len(), trim(line_at(s, p)).len() > 0 ensures p <= skip_blank(s, p) < line_end(s, p) <= s.len(), s[skip_blank(s, p)] != 10, !is_eol(ch(s, skip_blank(s, p)))
{
  lemma_line_end(s, p); lemma_skip_blank(s, p); let a = skip_blank(s, p); let e = line_end(s, p);
  if a >= e { lemma_blanks_only(s, p, e); let t = line_at(s, p); assert forall|i: int| 0 <= i < t.len() implies blank8(#[trigger] t[i]) by { assert(t[i] == s[p + i]); } lemma_trim_nothing(t); }
}
pub proof fn lemma_named_row(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>, row: Seq<int>, rel: int, rhs: bool) requires 0 <= p <= s.len()
  ensures named_row(s, p, eq, names, row, rel, rhs).is_some() ==> p <= named_row(s, p, eq, names, row, rel, rhs).unwrap().3 <= s.len() && (!eol_or_end(s, p) ==> p < named_row(s, p, eq, names, row, rel, rhs).unwrap().3)
  decreases s.len() - p
{
  reveal(named_row);
  if eol_or_end(s, p) { }
  else if is_rel(s, p) { if let Some((r, q0)) = rel_at(s, p) { let q = skip_blank(s, q0); if p < q <= s.len() { lemma_named_row(s, q, eq, names, row, r, rhs); } } }
  else if let Some((i, f, q0)) = signed_term(s, p, names) { let q = skip_blank(s, q0); if p < q <= s.len() && 0 <= i < row.len() { if i < row.len() - 1 { lemma_named_row(s, q, eq, names, row.update(i, f), rel, false); } else { lemma_named_row(s, q, eq, names, row.update(i, f), rel, true); } } }
}
pub proof fn lemma_plain_step(s: Seq<i8>, p: int, eq: bool, row: Seq<int>, rel: int, rhs: bool) requires 0 <= p <= s.len(), !eol_or_end(s, p) ensures plain_row(s, p, eq, row, rel, rhs).is_some() ==> p < plain_row(s, p, eq, row, rel, rhs).unwrap().3 <= s.len()
{
  if is_rel(s, p) { if let Some((r, q0)) = rel_at(s, p) { let q = skip_blank(s, q0); if p < q <= s.len() { lemma_plain_row(s, q, eq, row, r, rhs); } } }
  else if let Some((v, q0)) = int_at(s, p) { let q = skip_blank(s, q0); if p < q <= s.len() { lemma_plain_row(s, q, eq, row.push(v), rel, rel != 3); } }
}
pub proof fn lemma_con_at(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>) requires 0 <= p <= s.len(), trim(line_at(s, p)).len() > 0
  ensures con_at(s, p, eq, names).is_some() ==> p < con_at(s, p, eq, names).unwrap().1 <= s.len()
{
  reveal(con_at); lemma_text(s, p); lemma_con_start(s, p);
  if let Some(a) = con_start(s, p) {
    assert(ch(s, skip_blank(s, p)) == 40 ==> a > p) by { if ch(s, skip_blank(s, p)) == 40 { let b = skip_blank(s, p); lemma_skip_blank(s, b + 1); lemma_id_end(s, skip_blank(s, b + 1)); lemma_skip_blank(s, id_close(s, b) + 1); } }
    lemma_plain_row(s, a, eq, Seq::empty(), 3, false); lemma_named_row(s, a, eq, names, zero_row(names.len() as int + 1), 3, false);
    if !eol_or_end(s, a) { lemma_plain_step(s, a, eq, Seq::empty(), 3, false); }
  }
}
// one step through a section
pub proof fn lemma_cons(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>, c: Seq<Seq<int>>)
  requires 0 <= p <= s.len()
  ensures p == s.len() ==> cons(s, p, eq, names, c) == Some((c, p)),
    p < s.len() && keyword(trim(line_at(s, p))) ==> cons(s, p, eq, names, c) == Some((c, p)),
    p < s.len() ==> p <= line_end(s, p) <= s.len() && (trim(line_at(s, p)).len() == 0 && !keyword(trim(line_at(s, p))) ==> p < next_line(s, p) && cons(s, p, eq, names, c) == cons(s, next_line(s, p), eq, names, c)),
    p < s.len() && trim(line_at(s, p)).len() > 0 && !keyword(trim(line_at(s, p))) ==>
      match con_at(s, p, eq, names) { None => cons(s, p, eq, names, c).is_none(), Some((r, q)) => p < q <= con_next(s, q) <= s.len() && cons(s, p, eq, names, c) == cons(s, con_next(s, q), eq, names, and_row(c, r)) },
{
  hide(trim); reveal(cons); lemma_line_end(s, p);
  if p < s.len() && trim(line_at(s, p)).len() == 0 { assert(line_end(s, p) > p || s[p] == 10); }
  if p < s.len() && trim(line_at(s, p)).len() > 0 { lemma_con_at(s, p, eq, names); if con_at(s, p, eq, names).is_some() { let q = con_at(s, p, eq, names).unwrap().1; lemma_skip_blank(s, q); lemma_skip_eol(s, skip_blank(s, q)); } }
}
pub open spec fn con_header(x: Stream, eq: bool) -> bool { match header(x) { None => false, Some(h) => if eq { kw_equations(h) } else { kw_inequalities(h) || kw_reduced_inequalities(h) } } }
pub open spec fn cons_of(x: Stream, eq: bool, names: Seq<Seq<i8>>) -> Option<(Seq<Seq<int>>, int)> { cons(x.s, next_line(x.s, x.p), eq, names, Seq::empty()) }
