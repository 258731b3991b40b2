@unit constraint_text
@tu src/input_constraint.cpp
@mode Z
@native int
@streams
@lib prelude string stream keywords vertices relation constraint named names constraints
@import stream keywords relation names constraint_plain constraint_named vertex_text

@foreach K E in Inequality|false Equation|true
@fn keyword_condition(stream) key "keyword_condition<panda::ConstraintType::$K$>"
@throws
@ensures [the header] con_header(old(stream), $E$)
@ensures [the line is consumed] stream.s == old(stream).s && stream.p == next_line(old(stream).s, old(stream).p) && !stream.f
@exc [refused only if it is another header] !con_header(old(stream), $E$)
@entry lemma_line_end(stream.s, stream.p); lemma_no_keyword();

@fn potentiallyNamedConstraint(stream, names) key "potentiallyNamedConstraint<panda::ConstraintType::$K$>"
@requires s_good(stream)
@throws
@ensures [in the notation with names if names occur] con_at(old(stream).s, old(stream).p, $E$, names).is_some() && result =~= con_at(old(stream).s, old(stream).p, $E$, names).unwrap().0
@ensures [the whole line is read] stream == moved(old(stream), con_at(old(stream).s, old(stream).p, $E$, names).unwrap().1)
@exc [refused only if it is malformed] con_at(old(stream).s, old(stream).p, $E$, names).is_none()
@entry reveal(con_at);

@fn panda::input::implementation::constraints(stream, names) key "constraints<panda::ConstraintType::$K$>"
@throws
@opt rlimit=40
@ensures [the header] con_header(old(stream), $E$)
@ensures [every constraint of the section and nothing else] cons_of(old(stream), $E$, names).is_some() && result =~= cons_of(old(stream), $E$, names).unwrap().0
@ensures [the section is consumed] section_end(stream, old(stream).s, cons_of(old(stream), $E$, names).unwrap().1)
@exc [refused only if the header is wrong or a constraint is malformed] !con_header(old(stream), $E$) || cons_of(old(stream), $E$, names).is_none()
@entry lemma_line_end(stream.s, stream.p); lemma_no_keyword();
@loop 0
@before ghost K = cons_of(old(stream), $E$, names);
@invariant [the constraints so far] stream.s == old(stream).s && (stream.f ==> stream.p == stream.s.len()) && cons(stream.s, stream.p, $E$, names, rows) == K
@decreases 2 * (stream.s.len() - stream.p) + (if stream.f { 0int } else { 1int })
@start ghost P = start(stream).p; lemma_cons(old(stream).s, P, $E$, names, start(rows));
@after if stream.p == stream.s.len() { assert(line_at(stream.s, stream.p) =~= Seq::empty()); } lemma_cons(stream.s, stream.p, $E$, names, rows); assert(!stream.f ==> stream.p < stream.s.len() && keyword(trim(line_at(stream.s, stream.p)))); assert(K == Some((rows, stream.p))); lemma_line_end(stream.s, stream.p);
@endfor
