// What has been printed reads back as the row: the text stands at a position of the input, up to the end of a line.
pub open spec fn at(s: Seq<i8>, p: int, t: Seq<i8>) -> bool { 0 <= p && p + t.len() <= s.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[p + i] }
pub open spec fn line_ends(s: Seq<i8>, p: int) -> bool { p == s.len() || 0 <= p < s.len() && s[p] == 10 }
pub proof fn lemma_at(s: Seq<i8>, p: int, t: Seq<i8>, u: Seq<i8>) requires at(s, p, t + u) ensures at(s, p, t), at(s, p + t.len(), u), t.len() > 0 ==> s[p] == t[0]
{
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[p + i] by { assert((t + u)[i] == t[i]); }
  assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == s[p + t.len() + i] by { assert((t + u)[t.len() + i] == u[i]); }
}
pub open spec fn all_digits(t: Seq<i8>) -> bool { forall|i: int| 0 <= i < t.len() ==> 48 <= #[trigger] t[i] <= 57 }
pub proof fn lemma_digits(n: int) requires n >= 0 ensures digits(n).len() > 0, all_digits(digits(n)) decreases n { if n >= 10 { lemma_digits(n / 10); } }
pub proof fn lemma_dec_value(s: Seq<i8>, a: int, n: int) requires n >= 0, at(s, a, digits(n)) ensures dec_value(s, a, a + digits(n).len()) == n decreases n
{
  let t = digits(n); let b = a + t.len();
  if n >= 10 { lemma_digits(n / 10); assert(t =~= digits(n / 10) + seq![(48 + n % 10) as i8]); lemma_at(s, a, digits(n / 10), seq![(48 + n % 10) as i8]); lemma_dec_value(s, a, n / 10); assert(t[t.len() - 1] == s[b - 1]); assert(dec_value(s, a, b) == 10 * dec_value(s, a, b - 1) + (ch(s, b - 1) - 48)); }
  else { assert(t[0] == s[a]); assert(dec_value(s, a, a + 1) == 10 * dec_value(s, a, a) + (ch(s, a) - 48)); }
}
pub proof fn lemma_skip_all_digits(s: Seq<i8>, a: int, e: int) requires 0 <= a <= e <= s.len(), forall|i: int| a <= i < e ==> 48 <= #[trigger] s[i] <= 57, !is_digit(ch(s, e)) ensures skip_digits(s, a) == e decreases e - a { if a < e { assert(48 <= s[a] <= 57); lemma_skip_all_digits(s, a + 1, e); } }
// a number, possibly with a plus sign
pub open spec fn number(n: int, plus: bool) -> Seq<i8> { if plus && n >= 0 { seq![43i8] + dec(n) } else { dec(n) } }
pub proof fn lemma_number_text(n: int, plus: bool) ensures number(n, plus).len() > 0, forall|i: int| 0 <= i < number(n, plus).len() ==> term_char(#[trigger] number(n, plus)[i]), 48 <= number(n, plus).last() <= 57, !plus ==> number(n, plus) == dec(n), dec(n).len() > 0, 48 <= dec(n)[0] <= 57 || dec(n)[0] == 45
{
  if n < 0 { lemma_digits(-n); assert(number(n, plus) =~= seq![45i8] + digits(-n)); assert(number(n, plus).last() == digits(-n).last()); } else { lemma_digits(n); assert(number(n, plus).last() == digits(n).last()); }
}
pub proof fn lemma_number(s: Seq<i8>, p: int, n: int, plus: bool) requires at(s, p, number(n, plus)), i32::MIN <= n <= i32::MAX, !is_digit(ch(s, p + number(n, plus).len())) ensures int_at(s, p) == Some((n, p + number(n, plus).len()))
{
  let t = number(n, plus); let e = p + t.len(); lemma_number_text(n, plus); assert(t[0] == s[p]);
  assert(!is_space(ch(s, p))); assert(skip_space(s, p) == p);
  if n < 0 { lemma_digits(-n); assert(t =~= seq![45i8] + digits(-n)); lemma_at(s, p, seq![45i8], digits(-n)); assert(sign_end(s, p) == p + 1); lemma_dec_value(s, p + 1, -n);
    assert forall|i: int| p + 1 <= i < e implies 48 <= #[trigger] s[i] <= 57 by { assert(digits(-n)[i - p - 1] == s[i]); } lemma_skip_all_digits(s, p + 1, e); }
  else if plus { lemma_digits(n); assert(t =~= seq![43i8] + digits(n)); lemma_at(s, p, seq![43i8], digits(n)); assert(sign_end(s, p) == p + 1); lemma_dec_value(s, p + 1, n);
    assert forall|i: int| p + 1 <= i < e implies 48 <= #[trigger] s[i] <= 57 by { assert(digits(n)[i - p - 1] == s[i]); } lemma_skip_all_digits(s, p + 1, e); }
  else { lemma_digits(n); assert(t =~= digits(n)); assert(sign_end(s, p) == p); lemma_dec_value(s, p, n);
    assert forall|i: int| p <= i < e implies 48 <= #[trigger] s[i] <= 57 by { assert(digits(n)[i - p] == s[i]); } lemma_skip_all_digits(s, p, e); }
}
// ---- rows without names
pub open spec fn plain_rest(row: Seq<int>, k: int) -> Seq<i8> decreases row.len() - k { if k >= row.len() || k < 0 { Seq::empty() } else { plain_entry(row[k]) + plain_rest(row, k + 1) } }
pub proof fn lemma_plain_split(row: Seq<int>, k: int) requires 0 <= k <= row.len() ensures plain_text(row, row.len() as int) =~= plain_text(row, k) + plain_rest(row, k) decreases row.len() - k
{ if k < row.len() { lemma_plain_split(row, k + 1); assert(plain_text(row, k + 1) =~= plain_text(row, k) + plain_entry(row[k])); } }
pub proof fn lemma_plain_entry(s: Seq<i8>, p: int, v: int) requires at(s, p, plain_entry(v)), i32::MIN <= v <= i32::MAX, !is_digit(ch(s, p + plain_entry(v).len()))
  ensures ({ let q = skip_blank(s, p); p < q < s.len() && !eol_or_end(s, q) && !is_rel(s, q) && ch(s, q) != 40 && int_at(s, q) == Some((v, p + plain_entry(v).len())) && q < p + plain_entry(v).len() })
{
  lemma_number_text(v, false); let b: Seq<i8> = if v >= 0 { seq![32i8, 32i8] } else { seq![32i8] };
  assert(plain_entry(v) == b + dec(v)); lemma_at(s, p, b, dec(v)); let q = p + b.len();
  assert(b[0] == s[p]); if v >= 0 { assert(b[1] == s[p + 1]); } assert(dec(v)[0] == s[q]);
  assert(skip_blank(s, q) == q); assert(skip_blank(s, q - 1) == q); if v >= 0 { assert(skip_blank(s, q - 2) == skip_blank(s, q - 1)); }
  lemma_number(s, q, v, false);
}
pub proof fn lemma_plain_entry_step(s: Seq<i8>, q: int, eq: bool, row: Seq<int>, v: int, e: int)
  requires 0 <= q < e <= s.len(), !eol_or_end(s, q), !is_rel(s, q), int_at(s, q) == Some((v, e))
  ensures plain_row(s, q, eq, row, 3, false) == plain_row(s, skip_blank(s, e), eq, row.push(v), 3, false)
{ hide(int_at); hide(is_rel); hide(eol_or_end); lemma_skip_blank(s, e); }
pub proof fn lemma_plain_row_end(s: Seq<i8>, p: int, eq: bool, row: Seq<int>) requires line_ends(s, p) ensures skip_blank(s, p) == p, plain_row(s, p, eq, row, 3, false) == Some((row, 3int, false, p)) {}
// behind an entry comes a blank, or the end of the line
pub proof fn lemma_entry_behind(s: Seq<i8>, e: int, row: Seq<int>, k: int) requires 0 <= k <= row.len(), at(s, e, plain_rest(row, k)), line_ends(s, e + plain_rest(row, k).len()) ensures !is_digit(ch(s, e)), 0 <= e <= s.len()
{ if k < row.len() { lemma_at(s, e, plain_entry(row[k]), plain_rest(row, k + 1)); assert(plain_entry(row[k])[0] == 32); assert(s[e] == 32); } }
pub proof fn lemma_plain_reads(s: Seq<i8>, p: int, row: Seq<int>, k: int, eq: bool)
  requires 0 <= k <= row.len(), at(s, p, plain_rest(row, k)), line_ends(s, p + plain_rest(row, k).len()), all_int(row)
  ensures plain_row(s, skip_blank(s, p), eq, row.take(k), 3, false) == Some((row, 3int, false, p + plain_rest(row, k).len()))
  decreases row.len() - k
{
  hide(plain_row); hide(plain_entry); hide(int_at); hide(is_rel); hide(skip_blank); hide(line_ends); hide(is_digit);
  if k == row.len() { assert(row.take(k) =~= row); lemma_plain_row_end(s, p, eq, row); }
  else {
    let t = plain_entry(row[k]); lemma_at(s, p, t, plain_rest(row, k + 1)); let e = p + t.len(); lemma_entry_behind(s, e, row, k + 1);
    lemma_plain_entry(s, p, row[k]); lemma_plain_reads(s, e, row, k + 1, eq); assert(row.take(k).push(row[k]) =~= row.take(k + 1));
    lemma_plain_entry_step(s, skip_blank(s, p), eq, row.take(k), row[k], e);
  }
}
pub proof fn lemma_plain_read_back(s: Seq<i8>, p: int, row: Seq<int>, eq: bool)
  requires row.len() > 0, all_int(row), at(s, p, plain_text(row, row.len() as int)), line_ends(s, p + plain_text(row, row.len() as int).len())
  ensures plain_at(s, p, eq) == Some((row, p + plain_text(row, row.len() as int).len()))
{
  lemma_plain_split(row, 0); assert(plain_text(row, row.len() as int) =~= plain_rest(row, 0)); lemma_plain_reads(s, p, row, 0, eq); assert(row.take(0) =~= Seq::empty());
  lemma_at(s, p, plain_entry(row[0]), plain_rest(row, 1)); let e = p + plain_entry(row[0]).len();
  if 1 < row.len() { lemma_at(s, e, plain_entry(row[1]), plain_rest(row, 2)); assert(s[e] == 32); }
  lemma_plain_entry(s, p, row[0]);
}
// ---- rows with names
pub open spec fn good_name(w: Seq<i8>) -> bool { w.len() > 0 && !term_char(w[0]) && w[0] != 40 && !(60 <= w[0] <= 62) && forall|j: int| 0 <= j < w.len() ==> !is_space(uc(#[trigger] w[j])) }
pub open spec fn good_names(names: Seq<Seq<i8>>) -> bool { (forall|i: int| 0 <= i < names.len() ==> good_name(#[trigger] names[i])) && forall|i: int, j: int| 0 <= i < names.len() && 0 <= j < names.len() && #[trigger] names[i] == #[trigger] names[j] ==> i == j }
pub proof fn lemma_find_is<T>(t: Seq<T>, i: int, e: int, p: spec_fn(T) -> bool) requires 0 <= i <= e <= t.len(), forall|j: int| i <= j < e ==> !p(#[trigger] t[j]), e < t.len() ==> p(t[e]) ensures find_from(t, i, p) == e decreases e - i { if i < e { assert(!p(t[i])); lemma_find_is(t, i + 1, e, p); } }
pub proof fn lemma_skip_whole_word(s: Seq<i8>, a: int, e: int) requires 0 <= a <= e <= s.len(), forall|i: int| a <= i < e ==> !is_space(uc(#[trigger] s[i])), e == s.len() || is_space(ch(s, e)) ensures skip_word(s, a) == e decreases e - a { if a < e { assert(!is_space(uc(s[a]))); lemma_skip_whole_word(s, a + 1, e); } }
pub proof fn lemma_factor_text(v: int, first: bool) requires i32::MIN <= v <= i32::MAX, v != 0
  ensures to_int(factor_text(v, first)) == Some(v), forall|i: int| 0 <= i < factor_text(v, first).len() ==> term_char(#[trigger] factor_text(v, first)[i])
{
  let t = factor_text(v, first);
  if v != 1 && v != -1 { let n = number(v, !first); lemma_number_text(v, !first); lemma_digits(zabs(v)); assert(t =~= n); lemma_number(t, 0, v, !first); assert(t.last() != 43 && t.last() != 45); assert(seq![43i8].last() == 43 && seq![45i8].last() == 45); }
  else { assert(seq![43i8][0] == 43 && seq![45i8][0] == 45); }
}
pub proof fn lemma_factor_short(v: int, first: bool) requires i32::MIN <= v <= i32::MAX ensures factor_text(v, first).len() <= 12
{
  let n = zabs(v); reveal_with_fuel(digits, 11); assert(digits(n).len() <= 10);
}
pub proof fn lemma_name_index(names: Seq<Seq<i8>>, w: Seq<i8>) ensures 0 <= name_index(names, w) <= names.len(), forall|i: int| 0 <= i < name_index(names, w) ==> #[trigger] names[i] != w, name_index(names, w) < names.len() ==> names[name_index(names, w)] == w { let p = same_as(w); lemma_find_first(names, p); let z = name_index(names, w); assert forall|i: int| 0 <= i < z implies #[trigger] names[i] != w by { assert(!p(names[i])); } }
pub proof fn lemma_term_text(v: int, names: Seq<Seq<i8>>, k: int, first: bool) requires i32::MIN <= v <= i32::MAX, v != 0, good_names(names), 0 <= k < names.len()
  ensures term_of(term_text(v, names[k], first), names) == Some((k, v)), ({ let t = term_text(v, names[k], first); t.len() > 0 && !is_sign(t) && (term_char(t[0]) || t[0] == names[k][0]) && forall|j: int| 0 <= j < t.len() ==> !is_space(uc(#[trigger] t[j])) })
{
  reveal(term_of); lemma_factor_text(v, first); let f = factor_text(v, first); let w = names[k]; let t = f + w; let e = f.len() as int; let g = |c: i8| !term_char(c);
  assert(good_name(w)); assert(t[e] == w[0]); assert forall|j: int| 0 <= j < e implies !g(#[trigger] t[j]) by { assert(t[j] == f[j]); }
  lemma_find_is(t, 0, e, g); assert(t.take(e) =~= f); assert(t.skip(e) =~= w);
  lemma_name_index(names, w); let z = name_index(names, w); assert(names[k] == w); assert(0 <= z < names.len()); assert(names[z] == names[k]); assert(z == k);
  assert(t.last() == w.last()); assert forall|j: int| 0 <= j < t.len() implies !is_space(uc(#[trigger] t[j])) by { if j < e { assert(t[j] == f[j]); } else { assert(t[j] == w[j - e]); } }
  assert(!is_sign(t)) by { assert(seq![43i8][0] == 43 && seq![45i8][0] == 45); if t.len() == 1 { assert(e == 0); assert(t[0] == w[0]); } }
  if e > 0 { assert(t[0] == f[0]); }
}
pub open spec fn named_tail(row: Seq<int>, rel: Seq<i8>) -> Seq<i8> { seq![32i8] + (rel + (seq![32i8] + dec(-row[row.len() - 1]))) }
pub open spec fn named_rest(row: Seq<int>, names: Seq<Seq<i8>>, rel: Seq<i8>, k: int, some: bool) -> Seq<i8> decreases row.len() - 1 - k {
  if k >= row.len() - 1 || k < 0 { named_tail(row, rel) } else if row[k] == 0 { named_rest(row, names, rel, k + 1, some) }
  else { (if some { seq![32i8] } else { Seq::empty() }) + (term_text(row[k], names[k], !some) + named_rest(row, names, rel, k + 1, true)) }
}
pub proof fn lemma_named_split(row: Seq<int>, names: Seq<Seq<i8>>, rel: Seq<i8>, k: int) requires 0 <= k < row.len(), row.len() == names.len() + 1, names.len() > 0
  ensures row_text(row, names, rel) =~= terms_text(row, names, k) + named_rest(row, names, rel, k, some_term(row, k)) decreases row.len() - k
{ if k < row.len() - 1 { lemma_named_split(row, names, rel, k + 1); } }
pub proof fn lemma_rest_blank(row: Seq<int>, names: Seq<Seq<i8>>, rel: Seq<i8>, k: int) requires 0 <= k < row.len(), row.len() == names.len() + 1 ensures named_rest(row, names, rel, k, true).len() > 0, named_rest(row, names, rel, k, true)[0] == 32 decreases row.len() - k { if k < row.len() - 1 && row[k] == 0 { lemma_rest_blank(row, names, rel, k + 1); } }
pub open spec fn part(row: Seq<int>, k: int) -> Seq<int> { Seq::new(row.len(), |i: int| if i < k { row[i] } else { 0 }) }
pub open spec fn rel_text(eq: bool) -> Seq<i8> { if eq { seq![61i8] } else { seq![60i8, 61i8] } }
pub open spec fn rel_number(eq: bool) -> int { if eq { 1 } else { 2 } }
// a term at p, a blank behind it
pub proof fn lemma_reads_term(s: Seq<i8>, p: int, v: int, names: Seq<Seq<i8>>, k: int, first: bool)
  requires i32::MIN <= v <= i32::MAX, v != 0, good_names(names), 0 <= k < names.len(), at(s, p, term_text(v, names[k], first)), ch(s, p + term_text(v, names[k], first).len()) == 32
  ensures skip_blank(s, p) == p, p < s.len(), !eol_or_end(s, p), !is_rel(s, p), ch(s, p) != 40, signed_term(s, p, names) == Some((k, v, p + term_text(v, names[k], first).len()))
{
  reveal(signed_term); lemma_term_text(v, names, k, first); let t = term_text(v, names[k], first); let e = p + t.len(); assert(good_name(names[k])); assert(t[0] == s[p]);
  assert forall|i: int| p <= i < e implies !is_space(uc(#[trigger] s[i])) by { assert(t[i - p] == s[i]); assert(!is_space(uc(t[i - p]))); }
  assert(skip_space(s, p) == p); lemma_skip_whole_word(s, p, e); assert(word_at(s, p) =~= t);
}
// the relation and the right hand side
pub proof fn lemma_reads_tail(s: Seq<i8>, p: int, row: Seq<int>, names: Seq<Seq<i8>>, eq: bool)
  requires row.len() == names.len() + 1, at(s, p, named_tail(row, rel_text(eq))), line_ends(s, p + named_tail(row, rel_text(eq)).len()), i32::MIN < row[row.len() - 1] <= i32::MAX
  ensures skip_blank(s, p) == p + 1, s[p + 1] == 60 || s[p + 1] == 61, named_row(s, p + 1, eq, names, part(row, row.len() - 1), 3, false) == Some((row, rel_number(eq), true, p + named_tail(row, rel_text(eq)).len()))
{
  let c = -row[row.len() - 1]; let rel = rel_text(eq); let e = p + named_tail(row, rel).len(); let d = dec(c); let one: Seq<i8> = seq![32i8];
  lemma_at(s, p, one, rel + (one + d)); lemma_at(s, p + 1, rel, one + d); let a = p + 1 + rel.len(); lemma_at(s, a, one, d); let q = a + 1; assert(e == q + d.len());
  assert(one[0] == s[p]); assert(rel[0] == s[p + 1]); if !eq { assert(rel[1] == s[p + 2]); } assert(one[0] == s[a]);
  lemma_number_text(c, false); assert(d[0] == s[q]);
  assert(skip_blank(s, p + 1) == p + 1); assert(skip_blank(s, p) == p + 1); assert(skip_blank(s, q) == q); assert(skip_blank(s, a) == q);
  let r0 = part(row, row.len() - 1);
  assert(rel_at(s, p + 1) == Some((rel_number(eq), a)));
  lemma_named_rel(s, p + 1, eq, names, r0, 3, false);
  assert(!is_digit(ch(s, e)));
  assert forall|i: int| q <= i < e implies !is_space(uc(#[trigger] s[i])) by { assert(d[i - q] == s[i]); assert(term_char(d[i - q])); }
  assert(skip_space(s, q) == q); lemma_skip_whole_word(s, q, e); assert(word_at(s, q) =~= d);
  assert(term_of(d, names) == Some((names.len() as int, -c)) && !is_sign(d)) by {
    reveal(term_of); let g = |x: i8| !term_char(x); assert forall|j: int| 0 <= j < d.len() implies !g(#[trigger] d[j]) by {} lemma_find_is(d, 0, d.len() as int, g); assert(d.take(d.len() as int) =~= d);
    assert(seq![43i8].last() == 43 && seq![45i8].last() == 45); lemma_number(d, 0, c, false);
    let h = |x: i8| 48 <= x <= 57; lemma_find_from(d, 0, h); if find_from(d, 0, h) >= d.len() { assert(!h(d[d.len() - 1])); }
  }
  assert(signed_term(s, q, names) == Some((names.len() as int, -c, e))) by { reveal(signed_term); }
  lemma_named_term(s, q, eq, names, r0, rel_number(eq), false); assert(skip_blank(s, e) == e);
  assert(r0.update(row.len() - 1, row[row.len() - 1]) =~= row); lemma_named_end(s, eq, names);
}
pub proof fn lemma_named_reads(s: Seq<i8>, p: int, row: Seq<int>, names: Seq<Seq<i8>>, eq: bool, k: int, some: bool)
  requires 0 <= k < row.len(), row.len() == names.len() + 1, good_names(names), all_int(row), row[row.len() - 1] != i32::MIN,
    at(s, p, named_rest(row, names, rel_text(eq), k, some)), line_ends(s, p + named_rest(row, names, rel_text(eq), k, some).len())
  ensures ({ let q = skip_blank(s, p); q < s.len() && !eol_or_end(s, q) && ch(s, q) != 40 && named_row(s, q, eq, names, part(row, k), 3, false) == Some((row, rel_number(eq), true, p + named_rest(row, names, rel_text(eq), k, some).len())) })
  decreases row.len() - k
{
  let rel = rel_text(eq);
  if k == row.len() - 1 { lemma_reads_tail(s, p, row, names, eq); }
  else if row[k] == 0 { assert(part(row, k) =~= part(row, k + 1)); lemma_named_reads(s, p, row, names, eq, k + 1, some); }
  else {
    let b: Seq<i8> = if some { seq![32i8] } else { Seq::empty() }; let t = term_text(row[k], names[k], !some); let r = named_rest(row, names, rel, k + 1, true);
    lemma_at(s, p, b, t + r); let q = p + b.len(); lemma_at(s, q, t, r); let e = q + t.len(); lemma_rest_blank(row, names, rel, k + 1); assert(r[0] == s[e]);
    lemma_reads_term(s, q, row[k], names, k, !some); if some { assert(b[0] == s[p]); assert(skip_blank(s, p) == skip_blank(s, q)); }
    lemma_named_reads(s, e, row, names, eq, k + 1, true);
    lemma_named_term(s, q, eq, names, part(row, k), 3, false); assert(part(row, k).update(k, row[k]) =~= part(row, k + 1));
  }
}
pub proof fn lemma_named_read_back(s: Seq<i8>, p: int, row: Seq<int>, names: Seq<Seq<i8>>, eq: bool)
  requires names.len() > 0, row.len() == names.len() + 1, good_names(names), all_int(row), row[row.len() - 1] != i32::MIN, at(s, p, row_text(row, names, rel_text(eq))), line_ends(s, p + row_text(row, names, rel_text(eq)).len())
  ensures named_at(s, p, eq, names) == Some((row, p + row_text(row, names, rel_text(eq)).len()))
{
  lemma_named_split(row, names, rel_text(eq), 0); assert(row_text(row, names, rel_text(eq)) =~= named_rest(row, names, rel_text(eq), 0, false));
  lemma_named_reads(s, p, row, names, eq, 0, false); assert(part(row, 0) =~= zero_row(names.len() as int + 1));
  lemma_skip_blank(s, p); let a = skip_blank(s, p); let e = p + row_text(row, names, rel_text(eq)).len(); assert(con_start(s, p) == Some(a)); assert(a < s.len() && s[a] != 10); assert(named_row(s, a, eq, names, zero_row(names.len() as int + 1), 3, false) == Some((row, rel_number(eq), true, e))); assert(directed(row, rel_number(eq)) == row);
}
// a term with a coefficient that is not zero shows that the row has names
pub proof fn lemma_shows_names(s: Seq<i8>, p: int, row: Seq<int>, names: Seq<Seq<i8>>, rel: Seq<i8>, k: int)
  requires 0 <= k < row.len(), row.len() == names.len() + 1, good_names(names), all_int(row), at(s, p, named_rest(row, names, rel, k, false)), exists|i: int| k <= i < names.len() && #[trigger] row[i] != 0
  ensures has_names(names, s, p)
  decreases row.len() - k
{
  hide(factor_text);
  if k < names.len() {
    if row[k] == 0 { lemma_shows_names(s, p, row, names, rel, k + 1); }
    else {
      let f = factor_text(row[k], true); let w = names[k]; let t = s.push(-1i8); let r = named_rest(row, names, rel, k + 1, true); let a = p + f.len();
      lemma_at(s, p, Seq::<i8>::empty(), term_text(row[k], w, true) + r); lemma_at(s, p, f + w, r); lemma_at(s, p, f, w); lemma_factor_text(row[k], true); lemma_factor_short(row[k], true);
      assert(good_name(w)); assert(t.subrange(a, a + w.len()) =~= w) by { assert forall|j: int| 0 <= j < w.len() implies #[trigger] t.subrange(a, a + w.len())[j] == w[j] by {} }
      assert forall|j: int| p <= j < a implies begins_none(names, #[trigger] t[j]) by { assert(t[j] == f[j - p]); assert forall|i: int| 0 <= i < names.len() && 0 < (#[trigger] names[i]).len() implies names[i][0] != t[j] by { assert(good_name(names[i])); } }
      assert(clear_name(names, t, p, p, a, k)); lemma_scan_complete(names, t, p, p, p, p, a, k);
    }
  }
}
// A row that has been printed reads back as itself.
pub proof fn lemma_row_read_back(s: Seq<i8>, p: int, row: Seq<int>, names: Seq<Seq<i8>>, eq: bool)
  requires row.len() > 0, all_int(row), at(s, p, row_text(row, names, rel_text(eq))), line_ends(s, p + row_text(row, names, rel_text(eq)).len()),
    names.len() > 0 ==> row.len() == names.len() + 1 && good_names(names) && row[row.len() - 1] != i32::MIN && exists|i: int| 0 <= i < names.len() && #[trigger] row[i] != 0
  ensures con_at(s, p, eq, names) == Some((row, p + row_text(row, names, rel_text(eq)).len()))
{
  hide(plain_at); hide(named_at); hide(has_names); reveal(con_at);
  if names.len() == 0 { lemma_plain_read_back(s, p, row, eq); }
  else { lemma_named_read_back(s, p, row, names, eq); lemma_named_split(row, names, rel_text(eq), 0); assert(row_text(row, names, rel_text(eq)) =~= named_rest(row, names, rel_text(eq), 0, false)); lemma_shows_names(s, p, row, names, rel_text(eq), 0);
    assert(has_names(names, s, p)); }
}
// ---- coordinates
pub proof fn lemma_dec_starts(n: int) ensures dec(n).len() > 0, dec(n)[0] == 45 || 48 <= dec(n)[0] <= 57 { lemma_number_text(n, false); }
pub proof fn lemma_lowest(n: int, d: int) requires d > 0 ensures ({ let g = gcd_spec(n, d); g > 0 && tdiv(n, g) * g == n && tdiv(d, g) * g == d && tdiv(d, g) > 0 && tdiv(d, g) <= d && zabs(tdiv(n, g)) <= zabs(n) && tdiv(n, g) * d == n * tdiv(d, g) })
{
  let g = gcd_spec(n, d); lemma_gcd(n, d); lemma_divides_div(g, n); lemma_divides_div(g, d); let x = tdiv(n, g); let y = tdiv(d, g);
  assert(y > 0 && y <= d) by (nonlinear_arith) requires y * g == d, d > 0, g > 0;
  assert(zabs(x) <= zabs(n)) by (nonlinear_arith) requires x * g == n, g > 0;
  assert(x * d == n * y) by (nonlinear_arith) requires x * g == n, y * g == d;
}
pub proof fn lemma_coord_back(s: Seq<i8>, p: int, n: int, d: int)
  requires d > 0, i32::MIN < n <= i32::MAX, d <= i32::MAX, at(s, p, coord_text(n, d)), ch(s, skip_blank(s, p + coord_text(n, d).len())) != 47
  ensures ({ let g = gcd_spec(n, d); coord_at(s, p) == Some((tdiv(n, g), tdiv(d, g), skip_blank(s, p + coord_text(n, d).len()))) })
{
  hide(int_at); hide(dec);
  lemma_lowest(n, d); let g = gcd_spec(n, d); let x = tdiv(n, g); let y = tdiv(d, g); let one: Seq<i8> = seq![32i8]; let e = p + coord_text(n, d).len(); let f: Seq<i8> = if y != 1 { seq![47i8] + dec(y) } else { Seq::empty() };
  assert(coord_text(n, d) =~= dec(x) + (f + one)); lemma_at(s, p, dec(x), f + one); let r = p + dec(x).len(); lemma_at(s, r, f, one); assert(one[0] == s[e - 1]); assert(skip_blank(s, e - 1) == skip_blank(s, e));
  lemma_number_text(x, false); lemma_number_text(y, false); assert(number(x, false) == dec(x));
  if y != 1 {
    let slash: Seq<i8> = seq![47i8]; lemma_at(s, r, slash, dec(y)); assert(slash[0] == s[r]); assert(number(y, false) == dec(y)); assert(skip_blank(s, r) == r); lemma_dec_starts(y); assert(dec(y)[0] == s[r + 1]); assert(skip_blank(s, r + 1) == r + 1);
    lemma_number(s, p, x, false); lemma_number(s, r + 1, y, false); assert(!eol_or_end(s, r + 1));
  } else { assert(r == e - 1); lemma_number(s, p, x, false); }
}
pub open spec fn vertex_rest(v: Seq<int>, k: int) -> Seq<i8> decreases v.len() - k { if k >= v.len() - 1 || k < 0 { Seq::empty() } else { coord_text(num_of(v, k), den_of(v)) + vertex_rest(v, k + 1) } }
pub proof fn lemma_vertex_split(v: Seq<int>, k: int) requires 0 <= k < v.len() ensures vertex_text(v, v.len() - 1) =~= vertex_text(v, k) + vertex_rest(v, k) decreases v.len() - k
{ if k < v.len() - 1 { lemma_vertex_split(v, k + 1); assert(vertex_text(v, k + 1) =~= vertex_text(v, k) + coord_text(num_of(v, k), den_of(v))); } }
pub open spec fn lowest(v: Seq<int>, k: int) -> Seq<int> { Seq::new((v.len() - 1 - k) as nat, |i: int| tdiv(num_of(v, k + i), gcd_spec(num_of(v, k + i), den_of(v)))) }
pub open spec fn lowest_den(v: Seq<int>, k: int) -> Seq<int> { Seq::new((v.len() - 1 - k) as nat, |i: int| tdiv(den_of(v), gcd_spec(num_of(v, k + i), den_of(v)))) }
pub open spec fn fits_vertex(v: Seq<int>) -> bool { v.len() > 1 && v[v.len() - 1] != 0 && forall|i: int| 0 <= i < v.len() ==> i32::MIN < #[trigger] v[i] <= i32::MAX }
pub proof fn lemma_coord_starts(n: int, d: int) ensures coord_text(n, d).len() > 1, coord_text(n, d)[0] == 45 || 48 <= coord_text(n, d)[0] <= 57
{ let g = gcd_spec(n, d); lemma_dec_starts(tdiv(n, g)); assert(coord_text(n, d)[0] == dec(tdiv(n, g))[0]); }
pub proof fn lemma_vertex_reads(s: Seq<i8>, p: int, v: Seq<int>, k: int)
  requires fits_vertex(v), 0 <= k < v.len() - 1, at(s, p, vertex_rest(v, k)), line_ends(s, p + vertex_rest(v, k).len())
  ensures coords(s, p) == Some((lowest(v, k), lowest_den(v, k), p + vertex_rest(v, k).len()))
  decreases v.len() - k
{
  hide(coord_at); hide(coord_text);
  let n = num_of(v, k); let d = den_of(v); let t = coord_text(n, d); lemma_at(s, p, t, vertex_rest(v, k + 1)); let e = p + t.len(); lemma_coord_starts(n, d);
  assert(i32::MIN < v[k] <= i32::MAX && i32::MIN < v[v.len() - 1] <= i32::MAX);
  let m = lowest(v, k); let q = lowest_den(v, k);
  if k + 1 < v.len() - 1 {
    let u = coord_text(num_of(v, k + 1), d); lemma_at(s, e, u, vertex_rest(v, k + 2)); lemma_coord_starts(num_of(v, k + 1), d); assert(u[0] == s[e]); assert(skip_blank(s, e) == e);
    lemma_coord_back(s, p, n, d); lemma_vertex_reads(s, e, v, k + 1); assert(!eol_or_end(s, e));
    assert(m =~= seq![m[0]] + lowest(v, k + 1)) by { assert forall|i: int| 0 < i < m.len() implies #[trigger] m[i] == lowest(v, k + 1)[i - 1] by { assert(k + i == k + 1 + (i - 1)); } }
    assert(q =~= seq![q[0]] + lowest_den(v, k + 1)) by { assert forall|i: int| 0 < i < q.len() implies #[trigger] q[i] == lowest_den(v, k + 1)[i - 1] by { assert(k + i == k + 1 + (i - 1)); } }
  } else {
    assert(vertex_rest(v, k + 1) =~= Seq::empty()); assert(skip_blank(s, e) == e); lemma_coord_back(s, p, n, d); assert(eol_or_end(s, e)); assert(m =~= seq![m[0]]); assert(q =~= seq![q[0]]);
  }
}
// A vertex that has been printed reads back: the same point, each coordinate in lowest terms.
pub proof fn lemma_vertex_read_back(s: Seq<i8>, p: int, v: Seq<int>)
  requires fits_vertex(v), at(s, p, vertex_text(v, v.len() - 1)), line_ends(s, p + vertex_text(v, v.len() - 1).len())
  ensures row_at(s, p) == Some((lowest(v, 0), lowest_den(v, 0), p + vertex_text(v, v.len() - 1).len())), lowest(v, 0).len() == v.len() - 1, lowest_den(v, 0).len() == v.len() - 1,
    forall|i: int| 0 <= i < v.len() - 1 ==> (#[trigger] lowest_den(v, 0)[i]) > 0 && lowest(v, 0)[i] * v[v.len() - 1] == v[i] * lowest_den(v, 0)[i]
{
  lemma_vertex_split(v, 0); assert(vertex_text(v, v.len() - 1) =~= vertex_rest(v, 0)); lemma_vertex_reads(s, p, v, 0);
  let t = coord_text(num_of(v, 0), den_of(v)); lemma_coord_starts(num_of(v, 0), den_of(v)); lemma_at(s, p, t, vertex_rest(v, 1)); assert(t[0] == s[p]); assert(skip_space(s, p) == p); assert(skip_blank(s, p) == p);
  let n = lowest(v, 0); let d = lowest_den(v, 0); let l = v[v.len() - 1];
  assert(row_start(s, p) == p); assert(ch(s, p) != 40); assert(row_at(s, p) == Some((n, d, p + vertex_text(v, v.len() - 1).len())));
  assert forall|i: int| 0 <= i < v.len() - 1 implies (#[trigger] d[i]) > 0 && n[i] * l == v[i] * d[i] by { let x = num_of(v, i); lemma_lowest(x, den_of(v)); let a = n[i]; let b = d[i]; assert(a * den_of(v) == x * b);
    if l < 0 { assert(a * l == v[i] * b) by (nonlinear_arith) requires a * (-l) == (-v[i]) * b; } }
}
// the rows of a matrix, one per line
pub proof fn lemma_matrix_line(s: Seq<i8>, p: int, m: Seq<Seq<int>>, names: Seq<Seq<i8>>, rel: Seq<i8>, n: int, k: int)
  requires 0 <= k < n <= m.len(), at(s, p, matrix_text(m, names, rel, n))
  ensures ({ let a = p + matrix_text(m, names, rel, k).len(); let t = row_text(m[k], names, rel); at(s, a, t) && s[a + t.len()] == 10 && a + t.len() + 1 == p + matrix_text(m, names, rel, k + 1).len() && a + t.len() < s.len() })
  decreases n
{
  let b = matrix_text(m, names, rel, n - 1); let t = row_text(m[n - 1], names, rel); let one: Seq<i8> = seq![10i8];
  assert(matrix_text(m, names, rel, n) =~= b + (t + one)); lemma_at(s, p, b, t + one); lemma_at(s, p + b.len(), t, one); assert(one[0] == s[p + b.len() + t.len()]);
  if k < n - 1 { lemma_matrix_line(s, p, m, names, rel, n - 1, k); }
}
pub proof fn lemma_matrix_read_back(s: Seq<i8>, p: int, m: Seq<Seq<int>>, names: Seq<Seq<i8>>, eq: bool, k: int)
  requires 0 <= k < m.len(), at(s, p, matrix_text(m, names, rel_text(eq), m.len() as int)), m[k].len() > 0, all_int(m[k]),
    names.len() > 0 ==> m[k].len() == names.len() + 1 && good_names(names) && m[k][m[k].len() - 1] != i32::MIN && exists|i: int| 0 <= i < names.len() && #[trigger] m[k][i] != 0
  ensures con_at(s, p + matrix_text(m, names, rel_text(eq), k).len(), eq, names) == Some((m[k], p + matrix_text(m, names, rel_text(eq), k + 1).len() - 1))
{ lemma_matrix_line(s, p, m, names, rel_text(eq), m.len() as int, k); lemma_row_read_back(s, p + matrix_text(m, names, rel_text(eq), k).len(), m[k], names, eq); }
