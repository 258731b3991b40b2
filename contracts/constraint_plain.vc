@unit constraint_plain
@tu src/input_constraint_unnamed_variables.cpp
@mode Z
@native int
@streams
@lib prelude string stream relation constraint
@import stream relation

@fn constraint(stream, type)
@requires !stream.f && 0 <= type <= 1
@throws
@opt rlimit=40
@ensures [the coefficients in the form a x + b <= 0] plain_at(old(stream).s, old(stream).p, type == 0).is_some() && result =~= plain_at(old(stream).s, old(stream).p, type == 0).unwrap().0
@ensures [the whole line is read] stream == moved(old(stream), plain_at(old(stream).s, old(stream).p, type == 0).unwrap().1)
@exc [refused only if it is malformed] plain_at(old(stream).s, old(stream).p, type == 0).is_none()
@entry lemma_con_start(stream.s, stream.p);
@loop 0
@before ghost A = stream.p; ghost K = plain_row(stream.s, A, type == 0, Seq::empty(), 3, false);
@invariant [what has been read] stream.s == old(stream).s && s_good(stream) && 0 <= relation <= 3 && (has_rhs ==> relation != 3 && ieq.len() > 0) && plain_row(stream.s, stream.p, type == 0, ieq, relation as int, has_rhs) == K
@decreases stream.s.len() - stream.p
@start ghost P = start(stream).p; lemma_blanks_skipped(stream.s); lemma_tokens(stream.s, P);

@foreach K E in Inequality|false Equation|true
@fn panda::input::implementation::constraint(stream) key "constraint<panda::ConstraintType::$K$>(std::basic_istream<char, std::char_traits<char>> &)"
@requires !stream.f
@throws
@ensures [the coefficients in the form a x + b <= 0] plain_at(old(stream).s, old(stream).p, $E$).is_some() && result =~= plain_at(old(stream).s, old(stream).p, $E$).unwrap().0
@ensures [the whole line is read] stream == moved(old(stream), plain_at(old(stream).s, old(stream).p, $E$).unwrap().1)
@exc [refused only if it is malformed] plain_at(old(stream).s, old(stream).p, $E$).is_none()
@endfor
