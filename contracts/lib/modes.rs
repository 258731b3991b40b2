// files: the text of the file of a name, if it can be read
pub uninterp spec fn file_text(name: Seq<i8>) -> Option<Seq<i8>>;
pub open spec fn file_stream(name: Seq<i8>) -> Stream { match file_text(name) { None => st(Seq::empty(), 0, true, false), Some(s) => st(s, 0, false, false) } }
// the only argument that is neither an option nor the parameter of an option "-x"; None: several
pub open spec fn dashed(x: Seq<i8>) -> bool { starts(x, seq![45i8]) }
pub open spec fn dashed2(x: Seq<i8>) -> bool { starts(x, seq![45i8, 45i8]) }
pub open spec fn needs_parameter(x: Seq<i8>) -> bool { !(x =~= seq![45i8, 99i8]) && !(x =~= seq![45i8, 102i8]) && !x.contains(61i8) }
pub open spec fn takes_parameter(x: Seq<i8>) -> bool { dashed(x) && !dashed2(x) && needs_parameter(x) }
pub open spec fn file_named(argv: Seq<Seq<i8>>, i: int, name: Seq<i8>) -> Option<Seq<i8>> decreases argv.len() + 2 - i {
  if i < 0 || i >= argv.len() { Some(name) }
  else if dashed(argv[i]) { file_named(argv, if takes_parameter(argv[i]) { i + 2 } else { i + 1 }, name) }
  else if name.len() > 0 { None } else { file_named(argv, i + 1, argv[i]) }
}
// the first option that asks for help or the version (numbers as in enum OperationMode)
pub open spec fn help_command(argv: Seq<Seq<i8>>, i: int) -> bool { argv[i] =~= seq![45i8, 104i8] && i + 1 < argv.len() || starts(argv[i], seq![45i8, 104i8, 61i8]) || starts(argv[i], seq![45i8, 45i8, 104i8, 101i8, 108i8, 112i8, 61i8]) || starts(argv[i], seq![45i8, 45i8, 104i8, 101i8, 108i8, 112i8, 45i8, 99i8, 111i8, 109i8, 109i8, 97i8, 110i8, 100i8, 61i8]) }
pub open spec fn help_option(x: Seq<i8>) -> bool { x =~= seq![63i8] || x =~= seq![45i8, 104i8] || x =~= seq![45i8, 45i8, 104i8] || x =~= seq![45i8, 104i8, 101i8, 108i8, 112i8] || x =~= seq![45i8, 45i8, 104i8, 101i8, 108i8, 112i8] }
pub open spec fn version_option(x: Seq<i8>) -> bool { x =~= seq![45i8, 118i8] || x =~= seq![45i8, 45i8, 118i8] || x =~= seq![45i8, 118i8, 101i8, 114i8, 115i8, 105i8, 111i8, 110i8] || x =~= seq![45i8, 45i8, 118i8, 101i8, 114i8, 115i8, 105i8, 111i8, 110i8] }
pub open spec fn mode_option(argv: Seq<Seq<i8>>, i: int) -> int decreases argv.len() - i {
  if i < 0 || i >= argv.len() { 6 } else if help_command(argv, i) { 2 } else if help_option(argv[i]) { 3 } else if version_option(argv[i]) { 4 } else { mode_option(argv, i + 1) }
}
// whether a line of the text from position p is a keyword of a kind: 0 convex hull, 1 conical hull, 2 inequalities
pub open spec fn kw_of(k: int, x: Seq<i8>) -> bool { if k == 0 { kw_convex(x) || kw_reduced_convex(x) } else if k == 1 { kw_conical(x) || kw_reduced_conical(x) } else { kw_inequalities(x) || kw_reduced_inequalities(x) } }
pub open spec fn has_kw(s: Seq<i8>, p: int, k: int) -> bool decreases s.len() + 1 - p via has_kw_dec { if p < 0 || p >= s.len() { false } else { kw_of(k, trim(line_at(s, p))) || has_kw(s, line_end(s, p) + 1, k) } }
#[via_fn] proof fn has_kw_dec(s: Seq<i8>, p: int, k: int) { if 0 <= p < s.len() { lemma_line_end(s, p); } }
pub open spec fn holds_kw(x: Stream, k: int) -> bool { !x.f && !x.e && has_kw(x.s, x.p, k) }
pub open spec fn mode_of(hull: bool, ieqs: bool) -> int { if hull && ieqs { 5 } else if ieqs { 1 } else { 0 } }
pub open spec fn mode_of_file(name: Seq<i8>) -> int { let x = file_stream(c_str_(name)); mode_of(holds_kw(x, 0) || holds_kw(x, 1), holds_kw(x, 2)) }
// no line is a keyword of two kinds
pub proof fn lemma_kinds(x: Seq<i8>) ensures !(kw_of(0, x) && kw_of(1, x)), !(kw_of(0, x) && kw_of(2, x)), !(kw_of(1, x) && kw_of(2, x))
{
  reveal(kw_convex); reveal(kw_reduced_convex); reveal(kw_conical); reveal(kw_reduced_conical); reveal(kw_inequalities); reveal(kw_reduced_inequalities);
  if kw_convex(x) { assert(x[0] == 67 && x[3] == 86 || x[0] == 86); }
  if kw_conical(x) { assert(x[0] == 67 && (x[3] == 69 || x[3] == 73) || x[0] == 82 && x[1] == 97); }
  if kw_inequalities(x) { assert(x[0] == 73); }
  if kw_reduced_convex(x) { assert(x[0] == 82 && (x[1] == 69 || x[1] == 101) && (x[8] == 67 && x[11] == 86 || x[8] == 86)); }
  if kw_reduced_conical(x) { assert(x[0] == 82 && (x[1] == 69 || x[1] == 101) && (x[8] == 67 && (x[11] == 69 || x[11] == 73) || x[8] == 82)); }
  if kw_reduced_inequalities(x) { assert(x[0] == 82 && (x[1] == 69 || x[1] == 101) && x[8] == 73); }
}
pub open spec fn selected(argv: Seq<Seq<i8>>) -> int { if argv.len() == 1 { 3 } else if mode_option(argv, 1) != 6 { mode_option(argv, 1) } else { mode_of_file(file_named(argv, 1, Seq::empty()).unwrap()) } }
