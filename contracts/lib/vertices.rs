// a coordinate: an integer, or two integers with / between them (the second is not zero, and on the same line)
pub open spec fn coord_at(s: Seq<i8>, p: int) -> Option<(int, int, int)> {
  match int_at(s, p) { None => None, Some((v, r)) => { let a = skip_blank(s, r);
    if ch(s, a) == 47 {
      let b = skip_blank(s, a + 1);
      if eol_or_end(s, b) { None } else { match int_at(s, b) { None => None, Some((d, c)) => if d == 0 { None } else { Some((v, d, skip_blank(s, c))) } } }
    } else { Some((v, 1, a)) } } }
}
// the coordinates up to the end of the line: numerators, denominators, position of the end of the line
pub open spec fn coords(s: Seq<i8>, p: int) -> Option<(Seq<int>, Seq<int>, int)> decreases s.len() - p {
  match coord_at(s, p) { None => None, Some((v, d, q)) =>
    if eol_or_end(s, q) { Some((seq![v], seq![d], q)) }
    else if q <= p { None }
    else { match coords(s, q) { None => None, Some((n, m, r)) => Some((seq![v] + n, seq![d] + m, r)) } } }
}
pub open spec fn joined(n: Seq<int>, m: Seq<int>, c: Option<(Seq<int>, Seq<int>, int)>) -> Option<(Seq<int>, Seq<int>, int)> { match c { None => None, Some((a, b, r)) => Some((n + a, m + b, r)) } }
pub proof fn lemma_coord_at(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures coord_at(s, p).is_some() ==> p < coord_at(s, p).unwrap().2 <= s.len() && coord_at(s, p).unwrap().1 != 0
{
  lemma_int_at(s, p);
  if int_at(s, p).is_some() { let r = int_at(s, p).unwrap().1; lemma_skip_blank(s, r); let a = skip_blank(s, r);
    if ch(s, a) == 47 { lemma_skip_blank(s, a + 1); let b = skip_blank(s, a + 1); lemma_int_at(s, b); if int_at(s, b).is_some() { lemma_skip_blank(s, int_at(s, b).unwrap().1); } } }
}
pub proof fn lemma_coords(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures coords(s, p).is_some() ==> p < coords(s, p).unwrap().2 <= s.len() && coords(s, p).unwrap().0.len() == coords(s, p).unwrap().1.len() > 0 && no_zero(coords(s, p).unwrap().1) decreases s.len() - p
{ lemma_coord_at(s, p); if coord_at(s, p).is_some() { let q = coord_at(s, p).unwrap().2; if !eol_or_end(s, q) { lemma_coords(s, q); } } }
// a row: possibly an identifier, then the coordinates
pub open spec fn row_start(s: Seq<i8>, p: int) -> int { let a = skip_space(s, p); skip_blank(s, if ch(s, a) == 40 { id_close(s, a) + 1 } else { a }) }
pub open spec fn row_at(s: Seq<i8>, p: int) -> Option<(Seq<int>, Seq<int>, int)> { let a = skip_space(s, p); if ch(s, a) == 40 && !is_id(s, a) { None } else { coords(s, row_start(s, p)) } }
pub open spec fn at_end(s: Seq<i8>, p: int) -> bool { skip_space(s, p) >= s.len() }
// the row of a vertex: the coordinates, brought to their least common denominator, which is the last entry
pub open spec fn vertex_of(row: Seq<int>, n: Seq<int>, d: Seq<int>) -> bool { row.len() == n.len() + 1 && d.len() == n.len() && row[n.len() as int] == row_lcm(d) && row_lcm(d) > 0 && forall|i: int| 0 <= i < n.len() ==> #[trigger] row[i] * d[i] == n[i] * row_lcm(d) }
// one more coordinate
pub proof fn lemma_join(n: Seq<int>, m: Seq<int>, s: Seq<i8>, p: int)
  requires 0 <= p <= s.len()
  ensures match coord_at(s, p) { None => joined(n, m, coords(s, p)).is_none(), Some((v, d, q)) => p < q <= s.len() && d != 0 && (if eol_or_end(s, q) { joined(n, m, coords(s, p)) == Some((n.push(v), m.push(d), q)) } else { joined(n, m, coords(s, p)) == joined(n.push(v), m.push(d), coords(s, q)) }) }
{
  lemma_coord_at(s, p);
  if coord_at(s, p).is_some() { let (v, d, q) = coord_at(s, p).unwrap();
    if eol_or_end(s, q) { assert(n + seq![v] =~= n.push(v)); assert(m + seq![d] =~= m.push(d)); }
    else if coords(s, q).is_some() { let (a, b, r) = coords(s, q).unwrap(); assert(n + (seq![v] + a) =~= n.push(v) + a); assert(m + (seq![d] + b) =~= m.push(d) + b); } }
}
pub proof fn lemma_scaled(n: int, d: int, l: int) requires d != 0, divides(d, l) ensures (n * tdiv(l, d)) * d == n * l
{
  if d > 0 { lemma_divides_div(d, l); } else { let q = choose|q: int| #[trigger] (d * q) == l; assert((-d) * (-q) == l) by (nonlinear_arith) requires d * q == l; lemma_divides_div(-d, l); assert(tdiv(l, d) == -tdiv(l, -d)) by { if l == 0 { } }  assert(tdiv(l, d) * d == l) by (nonlinear_arith) requires tdiv(l, d) == -tdiv(l, -d), tdiv(l, -d) * (-d) == l; }
  assert((n * tdiv(l, d)) * d == n * (tdiv(l, d) * d)) by (nonlinear_arith);
}

pub open spec fn vertex_row(n: Seq<int>, d: Seq<int>) -> Seq<int> { Seq::new(n.len(), |i: int| n[i] * tdiv(row_lcm(d), d[i])).push(row_lcm(d)) }
pub open spec fn ray_row(n: Seq<int>, d: Seq<int>) -> Seq<int> { Seq::new(n.len(), |i: int| n[i] * tdiv(row_lcm(d), d[i])).push(0) }
pub open spec fn some_row(n: Seq<int>, d: Seq<int>, ray: bool) -> Seq<int> { if ray { ray_row(n, d) } else { vertex_row(n, d) } }
// the position of the next line
pub open spec fn next_line(s: Seq<i8>, p: int) -> int { let r = line_end(s, p); if r < s.len() { r + 1 } else { r } }
// a section: rows, up to a line with a keyword or up to the end; lines without any text are skipped
pub open spec fn section(s: Seq<i8>, p: int, ray: bool) -> Option<(Seq<Seq<int>>, int)> decreases s.len() - p {
  if !(0 <= p < s.len()) { Some((Seq::empty(), p)) }
  else if keyword(trim(line_at(s, p))) { Some((Seq::empty(), p)) }
  else if trim(line_at(s, p)).len() == 0 { if !(p < next_line(s, p) <= s.len()) { None } else { section(s, next_line(s, p), ray) } }
  else if at_end(s, p) { Some((Seq::empty(), s.len() as int)) }
  else { match row_at(s, p) { None => None, Some((n, d, q)) => if !(p < q <= s.len()) { None } else { match section(s, q, ray) { None => None, Some((r, e)) => Some((seq![some_row(n, d, ray)] + r, e)) } } } }
}
// rows without keywords, up to the end
pub open spec fn all_rows(s: Seq<i8>, p: int) -> Option<Seq<Seq<int>>> decreases s.len() - p {
  if !(0 <= p < s.len()) || at_end(s, p) { Some(Seq::empty()) }
  else { match row_at(s, p) { None => None, Some((n, d, q)) => if !(p < q <= s.len()) { None } else { match all_rows(s, q) { None => None, Some(r) => Some(seq![vertex_row(n, d)] + r) } } } }
}
pub open spec fn with_rows(c: Seq<Seq<int>>, x: Option<(Seq<Seq<int>>, int)>) -> Option<(Seq<Seq<int>>, int)> { match x { None => None, Some((r, e)) => Some((c + r, e)) } }
pub open spec fn and_rows(c: Seq<Seq<int>>, x: Option<Seq<Seq<int>>>) -> Option<Seq<Seq<int>>> { match x { None => None, Some(r) => Some(c + r) } }
pub proof fn lemma_row_at(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures row_at(s, p).is_some() && !at_end(s, p) ==> p < row_at(s, p).unwrap().2 <= s.len() && row_at(s, p).unwrap().0.len() == row_at(s, p).unwrap().1.len() > 0
{
  lemma_skip_space(s, p); let a = skip_space(s, p);
  if a < s.len() { lemma_skip_blank(s, a + 1); lemma_id_end(s, skip_blank(s, a + 1)); }
  if ch(s, a) == 40 { if is_id(s, a) { lemma_skip_blank(s, id_close(s, a) + 1); lemma_coords(s, row_start(s, p)); } }
  else { lemma_skip_blank(s, a); lemma_coords(s, row_start(s, p)); }
}
// one step through a section
pub proof fn lemma_section(c: Seq<Seq<int>>, s: Seq<i8>, p: int, ray: bool)
  requires 0 <= p <= s.len()
  ensures p == s.len() ==> with_rows(c, section(s, p, ray)) == Some((c, p)),
    p < s.len() && keyword(trim(line_at(s, p))) ==> with_rows(c, section(s, p, ray)) == Some((c, p)),
    p < s.len() ==> p <= line_end(s, p) <= s.len() && (trim(line_at(s, p)).len() == 0 && !keyword(trim(line_at(s, p))) ==> p < next_line(s, p) && with_rows(c, section(s, p, ray)) == with_rows(c, section(s, next_line(s, p), ray))),
    p < s.len() && trim(line_at(s, p)).len() > 0 && !keyword(trim(line_at(s, p))) ==>
      (if at_end(s, p) { with_rows(c, section(s, p, ray)) == Some((c, s.len() as int)) } else { match row_at(s, p) { None => with_rows(c, section(s, p, ray)).is_none(), Some((n, d, q)) => p < q <= s.len() && with_rows(c, section(s, p, ray)) == with_rows(c.push(some_row(n, d, ray)), section(s, q, ray)) } }),
{
  hide(trim); hide(row_at); hide(at_end); hide(some_row);
  assert(c + Seq::<Seq<int>>::empty() =~= c); lemma_line_end(s, p); lemma_row_at(s, p);
  if p < s.len() && trim(line_at(s, p)).len() == 0 { assert(line_end(s, p) > p || s[p] == 10); }
  if p < s.len() && !at_end(s, p) && row_at(s, p).is_some() { let (n, d, q) = row_at(s, p).unwrap();
    if section(s, q, ray).is_some() { let (r, e) = section(s, q, ray).unwrap(); assert(c + (seq![some_row(n, d, ray)] + r) =~= c.push(some_row(n, d, ray)) + r); } }
}
pub proof fn lemma_all_rows(c: Seq<Seq<int>>, s: Seq<i8>, p: int)
  requires 0 <= p <= s.len()
  ensures at_end(s, p) ==> and_rows(c, all_rows(s, p)) == Some(c),
    !at_end(s, p) ==> match row_at(s, p) { None => and_rows(c, all_rows(s, p)).is_none(), Some((n, d, q)) => p < q <= s.len() && and_rows(c, all_rows(s, p)) == and_rows(c.push(vertex_row(n, d)), all_rows(s, q)) },
{
  hide(row_at); hide(vertex_row);
  assert(c + Seq::<Seq<int>>::empty() =~= c); lemma_skip_space(s, p); lemma_row_at(s, p);
  if !at_end(s, p) && row_at(s, p).is_some() { let (n, d, q) = row_at(s, p).unwrap();
    if all_rows(s, q).is_some() { let r = all_rows(s, q).unwrap(); assert(c + (seq![vertex_row(n, d)] + r) =~= c.push(vertex_row(n, d)) + r); } }
}
// where the section ends: at the next keyword (behind it, if it is the word END), or at the end of the input
pub open spec fn section_end(x: Stream, s: Seq<i8>, q: int) -> bool { x.s == s && if q >= s.len() { x.f } else { !x.f && x.p == (if kw_end(first_word(line_at(s, q))) { next_line(s, q) } else { q }) } }
// a section behind its first line
pub open spec fn header(x: Stream) -> Option<Seq<i8>> { if s_getline(x, Seq::empty()).0.f { None } else { Some(trim(line_at(x.s, x.p))) } }
pub open spec fn section_of(x: Stream, ray: bool) -> Option<(Seq<Seq<int>>, int)> { section(x.s, next_line(x.s, x.p), ray) }
