@unit vertex_text
@tu src/input_vertex.cpp
@mode Z
@native int
@streams
@lib prelude string stream keywords vertices
@import stream keywords row_ops@int

@fn vertex(stream)
@entry lemma_skip_space(stream.s, stream.p);
@requires !stream.f
@throws
@opt rlimit=40
@ensures [nothing is left] at_end(old(stream).s, old(stream).p) ==> result.len() == 0 && stream == st(stream.s, stream.s.len() as int, true, true) && stream.s == old(stream).s
@ensures [the coordinates over their least common denominator] !at_end(old(stream).s, old(stream).p) ==> row_at(old(stream).s, old(stream).p).is_some() && vertex_of(result, row_at(old(stream).s, old(stream).p).unwrap().0, row_at(old(stream).s, old(stream).p).unwrap().1)
@ensures [the row, written out] !at_end(old(stream).s, old(stream).p) ==> result =~= vertex_row(row_at(old(stream).s, old(stream).p).unwrap().0, row_at(old(stream).s, old(stream).p).unwrap().1)
@ensures [the whole line is read] !at_end(old(stream).s, old(stream).p) ==> stream == moved(old(stream), row_at(old(stream).s, old(stream).p).unwrap().2)
@exc [refused only if some coordinate is malformed] !at_end(old(stream).s, old(stream).p) && row_at(old(stream).s, old(stream).p).is_none()
@loop 0
@before ghost A = stream.p; ghost K = row_at(stream.s, old(stream).p); lemma_coords(stream.s, A); assert(joined(Seq::empty(), Seq::empty(), coords(stream.s, A)) =~= coords(stream.s, A)); assert(K == coords(stream.s, A));
@invariant [the coordinates so far] stream.s == old(stream).s && !stream.f && !stream.e && numerator.len() == denominator.len() && no_zero(denominator) && joined(numerator, denominator, coords(stream.s, stream.p)) == coords(stream.s, A)
@decreases stream.s.len() - stream.p
@start ghost P = start(stream).p; lemma_blanks_skipped(stream.s); lemma_join(start(numerator), start(denominator), old(stream).s, start(stream).p);
@after lemma_row_lcm(denominator); assert(!stream.f ==> K == Some((numerator, denominator, stream.p)));
@call skipWhitespace 1 after ghost R = stream.p; ghost V = tmp; assert(int_at(stream.s, P).is_some()); assert(int_at(stream.s, P).unwrap().0 == V); assert(R == skip_blank(stream.s, int_at(stream.s, P).unwrap().1));
@call skipWhitespace 2 after ghost B = stream.p; assert(B == skip_blank(stream.s, R + 1) && ch(stream.s, R) == 47);
@call isEndOfLine 1 before if ch(stream.s, R) == 47 { assert(stream.p == skip_blank(stream.s, int_at(stream.s, skip_blank(stream.s, R + 1)).unwrap().1)); } else { assert(stream.p == R); }  assert(coord_at(stream.s, P) == Some((numerator.last(), denominator.last(), stream.p)));
@loop 1
@before ghost N = numerator;
@invariant [scaled so far] i <= N.len() && numerator.len() == N.len() && (forall|j: int| i <= j < N.len() ==> numerator[j] == N[j]) && forall|j: int| 0 <= j < i ==> #[trigger] numerator[j] * denominator[j] == N[j] * lcm_value && numerator[j] == N[j] * tdiv(lcm_value, denominator[j])
@decreases N.len() - i
@start lemma_scaled(N[i as int], denominator[i as int], lcm_value);
@after assert forall|j: int| 0 <= j < N.len() implies #[trigger] numerator.push(lcm_value)[j] * denominator[j] == N[j] * row_lcm(denominator) by { assert(numerator.push(lcm_value)[j] == numerator[j]); assert(numerator[j] * denominator[j] == N[j] * lcm_value); } assert(vertex_of(numerator.push(lcm_value), N, denominator));

@fn panda::input::implementation::verticesConvex(stream)
@throws
@opt rlimit=40
@ensures [the header] header(old(stream)).is_some() && (kw_convex(header(old(stream)).unwrap()) || kw_reduced_convex(header(old(stream)).unwrap()))
@ensures [every row of the section and nothing else] section_of(old(stream), false).is_some() && result =~= section_of(old(stream), false).unwrap().0
@ensures [the section is consumed] section_end(stream, old(stream).s, section_of(old(stream), false).unwrap().1)
@exc [refused only if the header is wrong or a row is malformed] !(header(old(stream)).is_some() && (kw_convex(header(old(stream)).unwrap()) || kw_reduced_convex(header(old(stream)).unwrap()))) || section_of(old(stream), false).is_none()
@entry lemma_line_end(stream.s, stream.p); lemma_no_keyword();
@loop 0
@before ghost K = section_of(old(stream), false); assert(!old(stream).f && !old(stream).e && stream.p == next_line(old(stream).s, old(stream).p)); assert(with_rows(Seq::empty(), K) =~= K);
@invariant [the rows so far] stream.s == old(stream).s && (stream.f ==> stream.p == stream.s.len()) && with_rows(conv, section(stream.s, stream.p, false)) == K
@decreases 2 * (stream.s.len() - stream.p) + (if stream.f { 0int } else { 1int })
@start ghost P = start(stream).p; lemma_section(start(conv), old(stream).s, P, false);
@after if stream.p == stream.s.len() { assert(line_at(stream.s, stream.p) =~= Seq::empty()); } lemma_section(conv, stream.s, stream.p, false); assert(!stream.f ==> stream.p < stream.s.len() && keyword(trim(line_at(stream.s, stream.p)))); assert(K == Some((conv, stream.p))); lemma_line_end(stream.s, stream.p);

@fn panda::input::implementation::verticesConical(stream)
@throws
@opt rlimit=40
@ensures [the header] header(old(stream)).is_some() && (kw_conical(header(old(stream)).unwrap()) || kw_reduced_conical(header(old(stream)).unwrap()))
@ensures [every row of the section and nothing else] section_of(old(stream), true).is_some() && result =~= section_of(old(stream), true).unwrap().0
@ensures [the section is consumed] section_end(stream, old(stream).s, section_of(old(stream), true).unwrap().1)
@exc [refused only if the header is wrong or a row is malformed] !(header(old(stream)).is_some() && (kw_conical(header(old(stream)).unwrap()) || kw_reduced_conical(header(old(stream)).unwrap()))) || section_of(old(stream), true).is_none()
@entry lemma_line_end(stream.s, stream.p); lemma_no_keyword();
@loop 0
@before ghost K = section_of(old(stream), true); assert(!old(stream).f && !old(stream).e && stream.p == next_line(old(stream).s, old(stream).p)); assert(with_rows(Seq::empty(), K) =~= K);
@invariant [the rows so far] stream.s == old(stream).s && (stream.f ==> stream.p == stream.s.len()) && with_rows(cone, section(stream.s, stream.p, true)) == K
@end if cone.len() > start(cone).len() { let r = row_at(stream.s, P).unwrap(); assert(cone.last() =~= ray_row(r.0, r.1)); assert(cone =~= start(cone).push(ray_row(r.0, r.1))); }
@decreases 2 * (stream.s.len() - stream.p) + (if stream.f { 0int } else { 1int })
@start ghost P = start(stream).p; lemma_section(start(cone), old(stream).s, P, true);
@after if stream.p == stream.s.len() { assert(line_at(stream.s, stream.p) =~= Seq::empty()); } lemma_section(cone, stream.s, stream.p, true); assert(!stream.f ==> stream.p < stream.s.len() && keyword(trim(line_at(stream.s, stream.p)))); assert(K == Some((cone, stream.p))); lemma_line_end(stream.s, stream.p);

@fn panda::input::implementation::vertices(stream)
@throws
@opt rlimit=40
@ensures [every row and nothing else] if old(stream).f { result.len() == 0 } else { all_rows(old(stream).s, old(stream).p).is_some() && result =~= all_rows(old(stream).s, old(stream).p).unwrap() }
@exc [refused only if a row is malformed] !old(stream).f && all_rows(old(stream).s, old(stream).p).is_none()
@loop 0
@before ghost K = all_rows(stream.s, stream.p); assert(and_rows(Seq::empty(), K) =~= K); lemma_skip_space(stream.s, stream.s.len() as int); assert(at_end(stream.s, stream.s.len() as int));
@invariant [the rows so far] stream.s == old(stream).s && (if old(stream).f { conv.len() == 0 && stream.f } else { (stream.f ==> stream.p == stream.s.len()) && and_rows(conv, all_rows(stream.s, stream.p)) == K })
@decreases 2 * (stream.s.len() - stream.p) + (if stream.f { 0int } else { 1int })
@start ghost P = start(stream).p; lemma_all_rows(start(conv), old(stream).s, P);
@after lemma_all_rows(conv, stream.s, stream.p);
