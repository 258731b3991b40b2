// Input streams (std::istream of libstdc++, C locale, flags skipws and dec): the characters, the position of the
// next one, failbit, eofbit.  The state machine of the unformatted and formatted input functions, as the standard and
// libstdc++ define it.
pub struct Stream { pub s: Seq<i8>, pub p: int, pub f: bool, pub e: bool }
// characters as non-negative values, -1 at the end
pub open spec fn uc(c: i8) -> int { if c < 0 { c + 256 } else { c as int } }
pub open spec fn ch(s: Seq<i8>, p: int) -> int { if 0 <= p < s.len() { uc(s[p]) } else { -1 } }
pub open spec fn st(s: Seq<i8>, p: int, f: bool, e: bool) -> Stream { Stream { s: s, p: p, f: f, e: e } }
pub open spec fn s_clear(x: Stream) -> Stream { st(x.s, x.p, false, false) }
pub open spec fn s_fail(x: Stream) -> Stream { st(x.s, x.p, true, x.e) }
pub open spec fn s_good(x: Stream) -> bool { !x.f && !x.e }
pub open spec fn s_peek(x: Stream) -> (Stream, int) { if !s_good(x) { (s_fail(x), -1) } else if x.p < x.s.len() { (x, ch(x.s, x.p)) } else { (st(x.s, x.p, false, true), -1) } }
pub open spec fn s_get(x: Stream) -> (Stream, int) { if !s_good(x) { (s_fail(x), -1) } else if x.p < x.s.len() { (st(x.s, x.p + 1, false, false), ch(x.s, x.p)) } else { (st(x.s, x.p, true, true), -1) } }
pub open spec fn s_tellg(x: Stream) -> (Stream, int) { if !s_good(x) { (s_fail(x), -1) } else { (x, x.p) } }
pub open spec fn s_seekg(x: Stream, p: int) -> Stream { if x.f || p < 0 || p > x.s.len() { st(x.s, x.p, true, false) } else { st(x.s, p, false, false) } }
pub open spec fn is_space(c: int) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn is_digit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn skip_space(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && is_space(ch(s, p)) { skip_space(s, p + 1) } else { p } }
pub open spec fn skip_digits(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && is_digit(ch(s, p)) { skip_digits(s, p + 1) } else { p } }
pub open spec fn skip_word(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && !is_space(ch(s, p)) { skip_word(s, p + 1) } else { p } }
pub open spec fn line_end(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && s[p] != 10 { line_end(s, p + 1) } else { p } }
pub open spec fn dec_value(s: Seq<i8>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else { 10 * dec_value(s, a, b - 1) + (ch(s, b - 1) - 48) } }
pub open spec fn s_ws(x: Stream) -> Stream { let q = skip_space(x.s, x.p); st(x.s, q, x.f, x.e || q >= x.s.len()) }
// operator>>(int&): `old` is the value of the variable before
pub open spec fn sign_end(s: Seq<i8>, q: int) -> int { if ch(s, q) == 43 || ch(s, q) == 45 { q + 1 } else { q } }
pub open spec fn int_end(s: Seq<i8>, q: int) -> int { skip_digits(s, sign_end(s, q)) }
pub open spec fn int_value(s: Seq<i8>, q: int) -> int { let v = dec_value(s, sign_end(s, q), int_end(s, q)); if ch(s, q) == 45 { -v } else { v } }
pub open spec fn s_int(x: Stream, old: int) -> (Stream, int) {
  if !s_good(x) { (s_fail(x), old) } else {
    let q = skip_space(x.s, x.p);
    if q >= x.s.len() { (st(x.s, q, true, true), old) } else {
      let r = int_end(x.s, q); let e = r >= x.s.len(); let v = int_value(x.s, q);
      if r == sign_end(x.s, q) { (st(x.s, r, true, e), 0) }
      else if v < i32::MIN { (st(x.s, r, true, e), i32::MIN as int) }
      else if v > i32::MAX { (st(x.s, r, true, e), i32::MAX as int) }
      else { (st(x.s, r, false, e), v) } } }
}
pub open spec fn s_word(x: Stream, old: Seq<i8>) -> (Stream, Seq<i8>) {
  if !s_good(x) { (s_fail(x), old) } else {
    let q = skip_space(x.s, x.p);
    if q >= x.s.len() { (st(x.s, q, true, true), old) } else { let r = skip_word(x.s, q); (st(x.s, r, false, r >= x.s.len()), x.s.subrange(q, r)) } }
}
pub open spec fn s_getline(x: Stream, old: Seq<i8>) -> (Stream, Seq<i8>) {
  if !s_good(x) { (s_fail(x), old) } else {
    let r = line_end(x.s, x.p);
    if r < x.s.len() { (st(x.s, r + 1, false, false), x.s.subrange(x.p, r)) } else { (st(x.s, r, r == x.p, true), x.s.subrange(x.p, r)) } }
}
pub proof fn lemma_skip_space(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= skip_space(s, p) <= s.len(), !is_space(ch(s, skip_space(s, p))), forall|i: int| p <= i < skip_space(s, p) ==> is_space(#[trigger] ch(s, i)) decreases s.len() - p { if p < s.len() && is_space(ch(s, p)) { lemma_skip_space(s, p + 1); } }
pub proof fn lemma_skip_digits(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= skip_digits(s, p) <= s.len(), !is_digit(ch(s, skip_digits(s, p))), forall|i: int| p <= i < skip_digits(s, p) ==> is_digit(#[trigger] ch(s, i)) decreases s.len() - p { if p < s.len() && is_digit(ch(s, p)) { lemma_skip_digits(s, p + 1); } }
pub proof fn lemma_skip_word(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= skip_word(s, p) <= s.len(), skip_word(s, p) < s.len() ==> is_space(ch(s, skip_word(s, p))), forall|i: int| p <= i < skip_word(s, p) ==> !is_space(#[trigger] ch(s, i)) decreases s.len() - p { if p < s.len() && !is_space(ch(s, p)) { lemma_skip_word(s, p + 1); } }
pub proof fn lemma_line_end(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= line_end(s, p) <= s.len(), line_end(s, p) < s.len() ==> s[line_end(s, p)] == 10, forall|i: int| p <= i < line_end(s, p) ==> #[trigger] s[i] != 10 decreases s.len() - p { if p < s.len() && s[p] != 10 { lemma_line_end(s, p + 1); } }
// what the functions of input_common read
pub open spec fn is_blank(c: int) -> bool { c == 32 || c == 9 || c == 13 }
pub open spec fn is_eol(c: int) -> bool { c == 10 || c == 13 }
pub open spec fn skip_blank(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && is_blank(ch(s, p)) { skip_blank(s, p + 1) } else { p } }
pub open spec fn skip_eol(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && is_eol(ch(s, p)) { skip_eol(s, p + 1) } else { p } }
pub open spec fn id_end(s: Seq<i8>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && !is_eol(ch(s, p)) && ch(s, p) != 41 { id_end(s, p + 1) } else { p } }
pub proof fn lemma_skip_blank(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= skip_blank(s, p) <= s.len(), !is_blank(ch(s, skip_blank(s, p))) decreases s.len() - p { if p < s.len() && is_blank(ch(s, p)) { lemma_skip_blank(s, p + 1); } }
pub proof fn lemma_skip_eol(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= skip_eol(s, p) <= s.len(), !is_eol(ch(s, skip_eol(s, p))) decreases s.len() - p { if p < s.len() && is_eol(ch(s, p)) { lemma_skip_eol(s, p + 1); } }
pub proof fn lemma_id_end(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures p <= id_end(s, p) <= s.len() decreases s.len() - p { if p < s.len() && !is_eol(ch(s, p)) && ch(s, p) != 41 { lemma_id_end(s, p + 1); } }
pub open spec fn blank8(c: i8) -> bool { c == 32 || c == 9 || c == 13 }
// without blanks at either end
pub open spec fn trim_front(s: Seq<i8>) -> Seq<i8> { s.skip(find_from(s, 0, |c: i8| !blank8(c))) }
pub open spec fn trim_back(s: Seq<i8>) -> Seq<i8> { s.take(find_down(s, s.len() - 1, |c: i8| !blank8(c)) + 1) }
pub open spec fn trim(s: Seq<i8>) -> Seq<i8> { trim_back(trim_front(s)) }
pub proof fn lemma_find_same<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool) requires forall|c: T| #[trigger] p(c) == q(c) ensures find_from(s, i, p) == find_from(s, i, q) decreases s.len() - i { if 0 <= i < s.len() && !p(s[i]) { assert(!q(s[i])); lemma_find_same(s, i + 1, p, q); } else if 0 <= i < s.len() { assert(q(s[i])); } }
pub proof fn lemma_find_down_same<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool) requires forall|c: T| #[trigger] p(c) == q(c) ensures find_down(s, i, p) == find_down(s, i, q) decreases i + 1 { if 0 <= i < s.len() && !p(s[i]) { assert(!q(s[i])); lemma_find_down_same(s, i - 1, p, q); } else if 0 <= i < s.len() { assert(q(s[i])); } }
pub proof fn lemma_find_down<T>(s: Seq<T>, i: int, p: spec_fn(T) -> bool) requires -1 <= i < s.len() ensures -1 <= find_down(s, i, p) <= i, find_down(s, i, p) >= 0 ==> p(s[find_down(s, i, p)]), forall|j: int| find_down(s, i, p) < j <= i ==> !p(#[trigger] s[j]) decreases i + 1 { if i >= 0 && !p(s[i]) { lemma_find_down(s, i - 1, p); } }
pub open spec fn blanks() -> Seq<i8> { seq![32i8, 9i8, 13i8] }
pub proof fn lemma_blanks() ensures forall|c: i8| #[trigger] blanks().contains(c) <==> blank8(c) { assert forall|c: i8| blank8(c) implies #[trigger] blanks().contains(c) by { assert(blanks()[if c == 32 { 0int } else if c == 9 { 1int } else { 2int }] == c); } }
pub proof fn lemma_trim(s: Seq<i8>) requires s.len() <= 0x7fff_ffff_ffff_fffe
  ensures trim_front(s) =~= str_cut(s, 0, str_first_of(s, seq![32i8, 9i8, 13i8], 0, false) as int),
    trim_back(s) =~= str_cut(s, (if str_last_of(s, seq![32i8, 9i8, 13i8], u64::MAX as int, false) == u64::MAX { 0int } else { str_last_of(s, seq![32i8, 9i8, 13i8], u64::MAX as int, false) + 1 }), u64::MAX as int),
    trim_front(s).len() <= s.len(), trim_back(s).len() <= s.len(), ({ let r = str_last_of(s, seq![32i8, 9i8, 13i8], u64::MAX as int, false); r == u64::MAX || r < s.len() })
{
  lemma_blanks(); assert(blanks() =~= seq![32i8, 9i8, 13i8]);
  let p = |c: i8| !blank8(c); let q = |c: i8| blanks().contains(c) == false;
  assert forall|c: i8| #[trigger] p(c) == q(c) by { assert(blanks().contains(c) <==> blank8(c)); }
  lemma_find_same(s, 0, p, q); lemma_find_down_same(s, s.len() - 1, p, q);
  lemma_find_from(s, 0, p); lemma_find_down(s, s.len() - 1, p);
}
pub open spec fn first_word(s: Seq<i8>) -> Seq<i8> { let t = trim(s); t.take(find_from(t, 0, |c: i8| c == 32 || c == 9)) }
pub open spec fn line_at(s: Seq<i8>, p: int) -> Seq<i8> { s.subrange(p, line_end(s, p)) }
// peekLine: the state afterwards, the line
pub open spec fn peeked(x: Stream) -> Stream { if x.f { x } else if x.e { st(x.s, x.p, true, false) } else { x } }
pub open spec fn peek_line(x: Stream) -> Seq<i8> { if !s_good(x) { Seq::empty() } else { line_at(x.s, x.p) } }
pub open spec fn moved(x: Stream, p: int) -> Stream { st(x.s, p, false, false) }
pub proof fn lemma_first_word(s: Seq<i8>) requires s.len() <= 0x7fff_ffff_ffff_fffe
  ensures first_word(s) =~= (if str_first_of(trim(s), seq![32i8, 9i8], 0, true) == u64::MAX { trim(s) } else { str_cut(trim(s), str_first_of(trim(s), seq![32i8, 9i8], 0, true) as int, u64::MAX as int) }),
    trim(s).len() <= s.len(), ({ let r = str_first_of(trim(s), seq![32i8, 9i8], 0, true); r == u64::MAX || r < trim(s).len() })
{
  lemma_trim(s); lemma_trim(trim_front(s));
  let t = trim(s); let w = seq![32i8, 9i8];
  assert forall|c: i8| #[trigger] w.contains(c) <==> c == 32 || c == 9 by { assert(w[0] == 32 && w[1] == 9 && w.len() == 2); if c == 32 { assert(w[0] == c); } if c == 9 { assert(w[1] == c); } }
  let p = |c: i8| c == 32 || c == 9; let q = |c: i8| w.contains(c) == true;
  assert forall|c: i8| #[trigger] p(c) == q(c) by { assert(w.contains(c) <==> c == 32 || c == 9); }
  lemma_find_same(t, 0, p, q); lemma_find_from(t, 0, p);
}
// an identifier: text in parentheses on one line; the position behind it
pub open spec fn id_close(s: Seq<i8>, p: int) -> int { id_end(s, skip_blank(s, p + 1)) }
pub open spec fn is_id(s: Seq<i8>, p: int) -> bool { ch(s, p) == 40 && ch(s, id_close(s, p)) == 41 }
pub open spec fn id_text(s: Seq<i8>, p: int) -> Seq<i8> { trim(s.subrange(skip_blank(s, p + 1), id_close(s, p))) }
pub open spec fn st_ok(x: Stream) -> bool { 0 <= x.p <= x.s.len() && (x.e ==> x.p == x.s.len()) }
pub proof fn lemma_int_end(s: Seq<i8>, q: int) requires 0 <= q < s.len() ensures q <= sign_end(s, q) <= int_end(s, q) <= s.len() { lemma_skip_digits(s, sign_end(s, q)); }
pub proof fn lemma_s_int(x: Stream, old: int) ensures st_ok(x) ==> st_ok(s_int(x, old).0) && s_int(x, old).0.s == x.s && x.p <= s_int(x, old).0.p, st_ok(x) && s_good(x) ==> s_int(x, old).0.f == int_at(x.s, x.p).is_none() && (int_at(x.s, x.p).is_some() ==> s_int(x, old) == (st(x.s, int_at(x.s, x.p).unwrap().1, false, int_at(x.s, x.p).unwrap().1 >= x.s.len()), int_at(x.s, x.p).unwrap().0)) { if st_ok(x) { lemma_skip_space(x.s, x.p); let q = skip_space(x.s, x.p); if q < x.s.len() { lemma_int_end(x.s, q); } } }
pub proof fn lemma_skip_space_ok(x: Stream) ensures st_ok(x) ==> st_ok(s_ws(x)) && x.p <= s_ws(x).p { if st_ok(x) { lemma_skip_space(x.s, x.p); } }
pub proof fn lemma_s_word(x: Stream, old: Seq<i8>) ensures st_ok(x) ==> st_ok(s_word(x, old).0) && x.p <= s_word(x, old).0.p && (!s_word(x, old).0.f ==> s_word(x, old).1.len() > 0) { if st_ok(x) { lemma_skip_space(x.s, x.p); let q = skip_space(x.s, x.p); if q < x.s.len() { lemma_skip_word(x.s, q); } } }
pub proof fn lemma_s_getline(x: Stream, old: Seq<i8>) ensures st_ok(x) ==> st_ok(s_getline(x, old).0) && x.p <= s_getline(x, old).0.p && (!s_getline(x, old).0.f ==> x.p < s_getline(x, old).0.p) { if st_ok(x) { lemma_line_end(x.s, x.p); } }
// an int in decimal notation, possibly behind white space: the value, the position behind it
pub open spec fn int_at(s: Seq<i8>, p: int) -> Option<(int, int)> { let q = skip_space(s, p); let r = int_end(s, q); if q < s.len() && r > sign_end(s, q) && i32::MIN <= int_value(s, q) <= i32::MAX { Some((int_value(s, q), r)) } else { None } }
pub open spec fn eol_or_end(s: Seq<i8>, p: int) -> bool { p >= s.len() || is_eol(ch(s, p)) }
pub proof fn lemma_int_at(s: Seq<i8>, p: int) requires 0 <= p <= s.len() ensures int_at(s, p).is_some() ==> p < int_at(s, p).unwrap().1 <= s.len() { lemma_skip_space(s, p); let q = skip_space(s, p); if q < s.len() { lemma_int_end(s, q); } }
pub proof fn lemma_blanks_skipped(s: Seq<i8>) ensures forall|p: int| 0 <= p <= s.len() ==> p <= #[trigger] skip_blank(s, p) <= s.len() && !is_blank(ch(s, skip_blank(s, p))), forall|p: int| 0 <= p <= s.len() ==> #[trigger] skip_blank(s, skip_blank(s, p)) == skip_blank(s, p)
{
  assert forall|p: int| 0 <= p <= s.len() implies p <= #[trigger] skip_blank(s, p) <= s.len() && !is_blank(ch(s, skip_blank(s, p))) by { lemma_skip_blank(s, p); }
  assert forall|p: int| 0 <= p <= s.len() implies #[trigger] skip_blank(s, skip_blank(s, p)) == skip_blank(s, p) by { lemma_skip_blank(s, p); }
}
