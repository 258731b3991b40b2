// Numbers in decimal notation, as std::ostream and std::to_string write them.
pub open spec fn digits(n: int) -> Seq<i8> decreases n { if n < 10 { seq![(48 + n) as i8] } else { digits(n / 10).push((48 + n % 10) as i8) } }
pub open spec fn dec(n: int) -> Seq<i8> { if n < 0 { seq![45i8] + digits(-n) } else { digits(n) } }
// the text of the first k entries of a row without names
pub open spec fn plain_entry(v: int) -> Seq<i8> { if v >= 0 { seq![32i8, 32i8] + dec(v) } else { seq![32i8] + dec(v) } }
pub open spec fn plain_text(row: Seq<int>, k: int) -> Seq<i8> decreases k { if k <= 0 { Seq::empty() } else { plain_text(row, k - 1) + plain_entry(row[k - 1]) } }
// the text of the first k terms of a row with names
pub open spec fn some_term(row: Seq<int>, k: int) -> bool decreases k { if k <= 0 { false } else { row[k - 1] != 0 || some_term(row, k - 1) } }
pub open spec fn factor_text(v: int, first: bool) -> Seq<i8> { if v == 1 { if first { Seq::empty() } else { seq![43i8] } } else if v == -1 { seq![45i8] } else if v > 1 && !first { seq![43i8] + dec(v) } else { dec(v) } }
pub open spec fn term_text(v: int, name: Seq<i8>, first: bool) -> Seq<i8> { factor_text(v, first) + name }
pub open spec fn terms_text(row: Seq<int>, names: Seq<Seq<i8>>, k: int) -> Seq<i8> decreases k {
  if k <= 0 { Seq::empty() } else if row[k - 1] == 0 { terms_text(row, names, k - 1) }
  else { terms_text(row, names, k - 1) + (if some_term(row, k - 1) { seq![32i8] } else { Seq::empty() }) + term_text(row[k - 1], names[k - 1], !some_term(row, k - 1)) }
}
pub open spec fn row_text(row: Seq<int>, names: Seq<Seq<i8>>, rel: Seq<i8>) -> Seq<i8> {
  if names.len() == 0 { plain_text(row, row.len() as int) } else { terms_text(row, names, row.len() - 1) + seq![32i8] + rel + seq![32i8] + dec(-row[row.len() - 1]) }
}
// one row per line
pub open spec fn matrix_text(m: Seq<Seq<int>>, names: Seq<Seq<i8>>, rel: Seq<i8>, k: int) -> Seq<i8> decreases k { if k <= 0 { Seq::empty() } else { matrix_text(m, names, rel, k - 1) + row_text(m[k - 1], names, rel) + seq![10i8] } }
// the text of the first k coordinates of a vertex
pub open spec fn den_of(v: Seq<int>) -> int { zabs(v[v.len() - 1]) }
pub open spec fn num_of(v: Seq<int>, i: int) -> int { if v[v.len() - 1] < 0 { -v[i] } else { v[i] } }
pub open spec fn coord_text(n: int, d: int) -> Seq<i8> { let g = gcd_spec(n, d); dec(tdiv(n, g)) + (if tdiv(d, g) != 1 { seq![47i8] + dec(tdiv(d, g)) } else { Seq::empty() }) + seq![32i8] }
pub open spec fn vertex_text(v: Seq<int>, k: int) -> Seq<i8> decreases k { if k <= 0 { Seq::empty() } else { vertex_text(v, k - 1) + coord_text(num_of(v, k - 1), den_of(v)) } }
pub proof fn lemma_sign(b: bool, x: int) ensures ((if b { -1int } else { 1int }) * x) == (if b { -x } else { x }) { if b { assert((-1int) * x == -x) by (nonlinear_arith); } else { assert(1int * x == x) by (nonlinear_arith); } }
// rows of another integer type as rows of integers; whether all entries are in the range of int
pub open spec fn ints16(s: Seq<i16>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn ints64(s: Seq<i64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn intsz(s: Seq<int>) -> Seq<int> { s }
pub open spec fn all_int(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> i32::MIN <= #[trigger] s[i] <= i32::MAX }
pub proof fn lemma_ints16(s: Seq<i16>) ensures forall|r: Seq<int>| #[trigger] r.len() == s.len() && (forall|p: int| 0 <= p < s.len() ==> #[trigger] r[p] == s[p] as int) ==> r == ints16(s), forall|p: int| 0 <= p < s.len() ==> #[trigger] s[p] as int == ints16(s)[p], ints16(s).len() == s.len()
{ assert forall|r: Seq<int>| #[trigger] r.len() == s.len() && (forall|p: int| 0 <= p < s.len() ==> #[trigger] r[p] == s[p] as int) implies r == ints16(s) by { assert(r =~= ints16(s)); } }
pub proof fn lemma_ints64(s: Seq<i64>) ensures forall|r: Seq<int>| #[trigger] r.len() == s.len() && (forall|p: int| 0 <= p < s.len() ==> #[trigger] r[p] == s[p] as int) ==> r == ints64(s), forall|p: int| 0 <= p < s.len() ==> #[trigger] s[p] as int == ints64(s)[p], ints64(s).len() == s.len()
{ assert forall|r: Seq<int>| #[trigger] r.len() == s.len() && (forall|p: int| 0 <= p < s.len() ==> #[trigger] r[p] == s[p] as int) implies r == ints64(s) by { assert(r =~= ints64(s)); } }
pub proof fn lemma_intsz(s: Seq<int>) ensures forall|r: Seq<int>| #[trigger] r.len() == s.len() && (forall|p: int| 0 <= p < s.len() ==> #[trigger] r[p] == s[p] as int) ==> r == intsz(s), forall|p: int| 0 <= p < s.len() ==> #[trigger] s[p] as int == intsz(s)[p], intsz(s).len() == s.len()
{ assert forall|r: Seq<int>| #[trigger] r.len() == s.len() && (forall|p: int| 0 <= p < s.len() ==> #[trigger] r[p] == s[p] as int) implies r == intsz(s) by { assert(r =~= intsz(s)); } }
pub open spec fn rows_ints16(m: Seq<Seq<i16>>) -> Seq<Seq<int>> { Seq::new(m.len(), |q: int| ints16(m[q])) }
pub open spec fn rows_ints64(m: Seq<Seq<i64>>) -> Seq<Seq<int>> { Seq::new(m.len(), |q: int| ints64(m[q])) }
pub open spec fn rows_intsz(m: Seq<Seq<int>>) -> Seq<Seq<int>> { m }
pub open spec fn all_ints(m: Seq<Seq<int>>) -> bool { forall|q: int| 0 <= q < m.len() ==> all_int(#[trigger] m[q]) }
