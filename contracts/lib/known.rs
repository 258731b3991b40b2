// the file of known data: the first option of that kind (what: 0 facets, 1 vertices)
pub open spec fn long_k(what: int) -> Seq<i8> { if what == 0 { seq![45i8, 45i8, 107i8, 110i8, 111i8, 119i8, 110i8, 45i8, 102i8, 97i8, 99i8, 101i8, 116i8, 115i8, 61i8] } else { seq![45i8, 45i8, 107i8, 110i8, 111i8, 119i8, 110i8, 45i8, 118i8, 101i8, 114i8, 116i8, 105i8, 99i8, 101i8, 115i8, 61i8] } }
pub open spec fn known_named(argv: Seq<Seq<i8>>, i: int, what: int) -> Option_ decreases argv.len() - i {
  if i < 0 || i >= argv.len() { Option_::Nothing }
  else if argv[i] =~= seq![45i8, 107i8] { if i + 1 == argv.len() { Option_::Malformed } else { Option_::Value(argv[i + 1]) } }
  else if starts(argv[i], seq![45i8, 107i8, 61i8]) { Option_::Value(argv[i].skip(3)) }
  else if starts(argv[i], seq![45i8, 45i8, 107i8, 110i8, 111i8, 119i8, 110i8, 45i8, 100i8, 97i8, 116i8, 97i8, 61i8]) { Option_::Value(argv[i].skip(13)) }
  else if starts(argv[i], long_k(what)) { Option_::Value(argv[i].skip(long_k(what).len() as int)) }
  else if starts(argv[i], seq![45i8, 107i8]) || starts(argv[i], seq![45i8, 45i8, 107i8]) { Option_::Malformed }
  else { known_named(argv, i + 1, what) }
}
pub open spec fn known_is(o: Option_, name: Seq<i8>) -> bool { match o { Option_::Nothing => name.len() == 0, Option_::Value(x) => name =~= x, Option_::Malformed => false } }
