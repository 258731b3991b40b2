@unit constraint_named
@tu src/input_constraint_named_variables.cpp
@mode Z
@native int
@streams
@lib prelude string stream relation constraint named
@import stream relation

@fn term(token, names, id)
@throws
@ensures [index and factor] term_of(token, names).is_some() && result.0 == term_of(token, names).unwrap().0 && result.1 == term_of(token, names).unwrap().1
@exc [refused only if it is no term] term_of(token, names).is_none()
@entry reveal(term_of); lemma_factor(token); let e = factor_end(token); assert(str_sub(token, 0, e) =~= token.take(e)); assert(str_sub(token, 0, u64::MAX as int) =~= token); assert(token.take(token.len() as int) =~= token); assert(str_sub(token, e, u64::MAX as int) =~= token.skip(e)); lemma_find_first(names, |x: Seq<i8>| x == token.skip(e));

@fn constraint(stream, names, type)
@requires !stream.f && 0 <= type <= 1
@throws
@opt rlimit=60
@ensures [the coefficients in the form a x + b <= 0] named_at(old(stream).s, old(stream).p, type == 0, names).is_some() && result =~= named_at(old(stream).s, old(stream).p, type == 0, names).unwrap().0
@ensures [the whole line is read] stream == moved(old(stream), named_at(old(stream).s, old(stream).p, type == 0, names).unwrap().1)
@exc [refused only if it is malformed] named_at(old(stream).s, old(stream).p, type == 0, names).is_none()
@entry lemma_con_start(stream.s, stream.p); if con_start(stream.s, stream.p).is_some() { lemma_line_end(stream.s, con_start(stream.s, stream.p).unwrap()); }
@loop 0
@before ghost A = stream.p; ghost K = named_row(stream.s, A, type == 0, names, zero_row(names.len() as int + 1), 3, false); assert(ieq =~= zero_row(names.len() as int + 1)); lemma_named_end(stream.s, type == 0, names);
@invariant [what has been read] stream.s == old(stream).s && s_good(stream) && 0 <= relation <= 3 && ieq.len() == names.len() + 1 && named_row(stream.s, stream.p, type == 0, names, ieq, relation as int, has_rhs) == K
@invariant [no blank is next] !is_blank(ch(stream.s, stream.p)) && named_ends(stream.s, type == 0, names)
@decreases stream.s.len() - stream.p
@start ghost P = start(stream).p; lemma_blanks_skipped(stream.s); lemma_tokens(stream.s, P); if is_rel(stream.s, P) { lemma_named_rel(stream.s, P, type == 0, names, ieq, relation as int, has_rhs); } else { lemma_named_term(stream.s, P, type == 0, names, ieq, relation as int, has_rhs); lemma_signed_term(stream.s, P, names); }

@foreach K E in Inequality|false Equation|true
@fn panda::input::implementation::constraint(stream, names) key "constraint<panda::ConstraintType::$K$>(std::basic_istream<char, std::char_traits<char>> &,"
@requires !stream.f
@throws
@ensures [the coefficients in the form a x + b <= 0] named_at(old(stream).s, old(stream).p, $E$, names).is_some() && result =~= named_at(old(stream).s, old(stream).p, $E$, names).unwrap().0
@ensures [the whole line is read] stream == moved(old(stream), named_at(old(stream).s, old(stream).p, $E$, names).unwrap().1)
@exc [refused only if it is malformed] named_at(old(stream).s, old(stream).p, $E$, names).is_none()
@endfor
