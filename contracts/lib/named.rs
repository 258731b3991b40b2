// A constraint with names: terms (factor and name without a blank in between; a sign may stand apart), a relation operator, an integer.
pub open spec fn term_char(c: i8) -> bool { c == 43 || c == 45 || 48 <= c <= 57 }
pub open spec fn factor_end(t: Seq<i8>) -> int { find_from(t, 0, |c: i8| !term_char(c)) }
pub open spec fn has_digit(t: Seq<i8>) -> bool { find_from(t, 0, |c: i8| 48 <= c <= 57) < t.len() }
pub open spec fn same_as(w: Seq<i8>) -> spec_fn(Seq<i8>) -> bool { |x: Seq<i8>| x == w }
pub open spec fn name_index(names: Seq<Seq<i8>>, w: Seq<i8>) -> int { find_first(names, same_as(w)) }
// the index (that of the right hand side is the number of names), the factor (that of the right hand side is negated)
#[verifier::opaque]
pub open spec fn term_of(t: Seq<i8>, names: Seq<Seq<i8>>) -> Option<(int, int)> {
  let e = factor_end(t);
  match to_int(t.take(e)) { None => None, Some(f) =>
    if e == t.len() { if has_digit(t) { Some((names.len() as int, -f)) } else { None } }
    else { let i = name_index(names, t.skip(e)); if i < names.len() { Some((i, f)) } else { None } } }
}
pub open spec fn word_end(s: Seq<i8>, p: int) -> int { skip_word(s, skip_space(s, p)) }
pub open spec fn word_at(s: Seq<i8>, p: int) -> Seq<i8> { s.subrange(skip_space(s, p), word_end(s, p)) }
pub open spec fn is_sign(t: Seq<i8>) -> bool { t =~= seq![43i8] || t =~= seq![45i8] }
pub proof fn lemma_term(t: Seq<i8>, names: Seq<Seq<i8>>) ensures term_of(t, names).is_some() ==> 0 <= term_of(t, names).unwrap().0 <= names.len() { reveal(term_of); lemma_find_first(names, same_as(t.skip(factor_end(t)))); }
pub proof fn lemma_no_term(names: Seq<Seq<i8>>) ensures term_of(seq![43i8], names).is_none(), term_of(seq![45i8], names).is_none(), term_of(Seq::empty(), names).is_none()
{
  reveal(term_of); let d = |c: i8| 48 <= c <= 57; let n = |c: i8| !term_char(c);
  assert forall|t: Seq<i8>| t =~= seq![43i8] || t =~= seq![45i8] || t =~= Seq::<i8>::empty() implies #[trigger] term_of(t, names).is_none() by { lemma_find_from(t, 0, d); lemma_find_from(t, 0, n); if factor_end(t) < t.len() { assert(n(t[factor_end(t)])); assert(t[0] == 43 || t[0] == 45); } if has_digit(t) { let k = find_from(t, 0, d); assert(d(t[k])); assert(t[0] == 43 || t[0] == 45); } }
}
// a term, possibly with a sign apart; index, factor, position behind it
#[verifier::opaque]
pub open spec fn signed_term(s: Seq<i8>, p: int, names: Seq<Seq<i8>>) -> Option<(int, int, int)> {
  let w = word_at(s, p); let e = word_end(s, p);
  if is_sign(w) {
    let b = skip_blank(s, e);
    if eol_or_end(s, b) { None } else {
      match term_of(word_at(s, b), names) { None => None, Some((i, f)) =>
        if (if i < names.len() { f < 0 } else { f > 0 }) { None } else { Some((i, if w =~= seq![45i8] { -f } else { f }, word_end(s, b))) } } }
  } else { match term_of(w, names) { None => None, Some((i, f)) => Some((i, f, e)) } }
}
#[verifier::opaque]
pub open spec fn named_row(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>, row: Seq<int>, rel: int, rhs: bool) -> Option<(Seq<int>, int, bool, int)> decreases s.len() - p {
  if eol_or_end(s, p) { Some((row, rel, rhs, p)) }
  else if is_rel(s, p) {
    match rel_at(s, p) { None => None, Some((r, q0)) => { let q = skip_blank(s, q0);
      if rel != 3 || !rel_fits(r, eq) || !(p < q <= s.len()) { None } else { named_row(s, q, eq, names, row, r, rhs) } } } }
  else { match signed_term(s, p, names) { None => None, Some((i, f, q0)) => { let q = skip_blank(s, q0);
    if !(p < q <= s.len()) || !(0 <= i < row.len()) || rhs { None }
    else if i < row.len() - 1 { if rel != 3 || row[i] != 0 { None } else { named_row(s, q, eq, names, row.update(i, f), rel, false) } }
    else if rel == 3 { None } else { named_row(s, q, eq, names, row.update(i, f), rel, true) } } } }
}
pub open spec fn zero_row(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| 0int) }
// the constraint (nothing on a line without text), the position of the end of its line
pub open spec fn named_at(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>) -> Option<(Seq<int>, int)> {
  match con_start(s, p) { None => None, Some(a) =>
    if a >= s.len() || s[a] == 10 { Some((Seq::empty(), a)) }
    else { match named_row(s, a, eq, names, zero_row(names.len() as int + 1), 3, false) { None => None, Some((row, rel, rhs, q)) => if rhs { Some((directed(row, rel), q)) } else { None } } } }
}
pub proof fn lemma_word(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= skip_space(s, p) <= word_end(s, p) <= s.len(), skip_space(s, p) < s.len() ==> p < word_end(s, p)
{ lemma_skip_space(s, p); lemma_skip_word(s, skip_space(s, p)); }
pub proof fn lemma_factor(t: Seq<i8>) requires t.len() <= 0x7fff_ffff_ffff_fffe
  ensures 0 <= factor_end(t) <= t.len(), str_first_of(t, seq![43i8, 45i8, 48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8], 0, false) == (if factor_end(t) < t.len() { factor_end(t) } else { u64::MAX as int }),
    str_first_of(t, seq![48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8], 0, true) == u64::MAX <==> !has_digit(t)
{
  let w = seq![43i8, 45i8, 48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8]; let p = |c: i8| !term_char(c); let q = |c: i8| w.contains(c) == false;
  assert forall|c: i8| #[trigger] p(c) == q(c) by { if term_char(c) { let k = if c == 43 { 0int } else if c == 45 { 1int } else { c - 46 }; assert(w[k] == c); } else if w.contains(c) { let k = choose|k: int| 0 <= k < w.len() && w[k] == c; } }
  lemma_find_same(t, 0, p, q); lemma_find_from(t, 0, p);
  let v = seq![48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8]; let f = |c: i8| 48 <= c <= 57; let g = |c: i8| v.contains(c) == true;
  assert forall|c: i8| #[trigger] f(c) == g(c) by { if 48 <= c <= 57 { assert(v[c - 48] == c); } else if v.contains(c) { let k = choose|k: int| 0 <= k < v.len() && v[k] == c; } }
  lemma_find_same(t, 0, f, g); lemma_find_from(t, 0, f);
}

// one step of the loop
pub open spec fn named_ends(s: Seq<i8>, eq: bool, names: Seq<Seq<i8>>) -> bool { forall|p: int, row: Seq<int>, rel: int, rhs: bool| eol_or_end(s, p) ==> #[trigger] named_row(s, p, eq, names, row, rel, rhs) == Some((row, rel, rhs, p)) }
pub proof fn lemma_named_end(s: Seq<i8>, eq: bool, names: Seq<Seq<i8>>) ensures named_ends(s, eq, names) { reveal(named_row); }
pub proof fn lemma_named_rel(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>, row: Seq<int>, rel: int, rhs: bool) requires 0 <= p < s.len(), !eol_or_end(s, p), is_rel(s, p)
  ensures rel_at(s, p).is_none() || rel != 3 || !rel_fits(rel_at(s, p).unwrap().0, eq) ==> named_row(s, p, eq, names, row, rel, rhs).is_none(),
    rel_at(s, p).is_some() && rel == 3 && rel_fits(rel_at(s, p).unwrap().0, eq) ==> named_row(s, p, eq, names, row, rel, rhs) == named_row(s, skip_blank(s, rel_at(s, p).unwrap().1), eq, names, row, rel_at(s, p).unwrap().0, rhs)
{ reveal(named_row); lemma_tokens(s, p); lemma_blanks_skipped(s); }
pub proof fn lemma_signed_term(s: Seq<i8>, p: int, names: Seq<Seq<i8>>) requires 0 <= p < s.len()
  ensures p <= word_end(s, p) <= s.len(), skip_space(s, p) < s.len() ==> p < word_end(s, p), skip_space(s, p) >= s.len() ==> signed_term(s, p, names).is_none(), signed_term(s, p, names).is_some() ==> 0 <= signed_term(s, p, names).unwrap().0 <= names.len() && p < signed_term(s, p, names).unwrap().2 <= s.len(),
    !is_sign(word_at(s, p)) ==> signed_term(s, p, names) == (match term_of(word_at(s, p), names) { None => None, Some((i, f)) => Some((i, f, word_end(s, p))) }),
    is_sign(word_at(s, p)) ==> ({ let b = skip_blank(s, word_end(s, p)); p < b <= s.len() && signed_term(s, p, names) == (if eol_or_end(s, b) { None::<(int, int, int)> } else { match term_of(word_at(s, b), names) { None => None, Some((i, f)) => if (if i < names.len() { f < 0 } else { f > 0 }) { None } else { Some((i, if word_at(s, p) =~= seq![45i8] { -f } else { f }, word_end(s, b))) } } }) && (!eol_or_end(s, b) ==> b <= word_end(s, b) <= s.len() && (skip_space(s, b) >= s.len() ==> signed_term(s, p, names).is_none())) }),
    forall|t: Seq<i8>| (#[trigger] term_of(t, names)).is_some() ==> 0 <= term_of(t, names).unwrap().0 <= names.len(), word_at(s, p) =~= seq![43i8] ==> !(word_at(s, p) =~= seq![45i8]),
    term_of(seq![43i8], names).is_none(), term_of(seq![45i8], names).is_none(), term_of(Seq::empty(), names).is_none()
{
  assert(seq![43i8][0] == 43 && seq![45i8][0] == 45);
  assert forall|t: Seq<i8>| (#[trigger] term_of(t, names)).is_some() implies 0 <= term_of(t, names).unwrap().0 <= names.len() by { lemma_term(t, names); }
  reveal(signed_term); lemma_word(s, p); lemma_blanks_skipped(s); lemma_word(s, skip_blank(s, word_end(s, p))); lemma_term(word_at(s, p), names); lemma_term(word_at(s, skip_blank(s, word_end(s, p))), names); lemma_no_term(names); assert(skip_space(s, p) >= s.len() ==> word_at(s, p) =~= Seq::empty()); let b = skip_blank(s, word_end(s, p)); assert(skip_space(s, b) >= s.len() && b <= s.len() ==> word_at(s, b) =~= Seq::empty()) by { lemma_word(s, b); }
}
pub proof fn lemma_named_term(s: Seq<i8>, p: int, eq: bool, names: Seq<Seq<i8>>, row: Seq<int>, rel: int, rhs: bool) requires 0 <= p < s.len(), !eol_or_end(s, p), !is_rel(s, p), row.len() == names.len() + 1
  ensures ({ let t = signed_term(s, p, names);
    (t.is_none() || rhs || (t.unwrap().0 < names.len() && (rel != 3 || row[t.unwrap().0] != 0)) || (t.unwrap().0 == names.len() && rel == 3) ==> named_row(s, p, eq, names, row, rel, rhs).is_none())
    && (t.is_some() && !rhs && (t.unwrap().0 < names.len() ==> rel == 3 && row[t.unwrap().0] == 0) && (t.unwrap().0 == names.len() ==> rel != 3) ==> named_row(s, p, eq, names, row, rel, rhs) == named_row(s, skip_blank(s, t.unwrap().2), eq, names, row.update(t.unwrap().0, t.unwrap().1), rel, t.unwrap().0 == names.len())) })
{ reveal(named_row); lemma_signed_term(s, p, names); lemma_blanks_skipped(s); }
