// what the first option of a kind asks for: the letter of its short form, the text of its long form
pub enum Option_ { Nothing, Value(Seq<i8>), Malformed }
pub open spec fn opt(argv: Seq<Seq<i8>>, i: int, c: i8, long: Seq<i8>) -> Option_ decreases argv.len() - i {
  if i < 0 || i >= argv.len() { Option_::Nothing }
  else if argv[i] =~= seq![45i8, c] { if i + 1 == argv.len() { Option_::Malformed } else { Option_::Value(argv[i + 1]) } }
  else if starts(argv[i], seq![45i8, c, 61i8]) { Option_::Value(argv[i].skip(3)) }
  else if starts(argv[i], long) { Option_::Value(argv[i].skip(long.len() as int)) }
  else if starts(argv[i], seq![45i8, c]) || starts(argv[i], seq![45i8, 45i8, c]) { Option_::Malformed }
  else { opt(argv, i + 1, c, long) }
}
pub open spec fn long_i() -> Seq<i8> { seq![45i8, 45i8, 105i8, 110i8, 116i8, 101i8, 103i8, 101i8, 114i8, 45i8, 116i8, 121i8, 112i8, 101i8, 61i8] }
pub open spec fn long_m() -> Seq<i8> { seq![45i8, 45i8, 109i8, 101i8, 116i8, 104i8, 111i8, 100i8, 61i8] }
pub open spec fn long_t() -> Seq<i8> { seq![45i8, 45i8, 116i8, 104i8, 114i8, 101i8, 97i8, 100i8, 115i8, 61i8] }
// the integer types (numbers as in enum IntegerType: 16, 32, 64 bits, safe, arbitrary precision, default)
pub open spec fn type_named(x: Seq<i8>) -> int { if x =~= seq![49i8, 54i8] { 0 } else if x =~= seq![51i8, 50i8] { 1 } else if x =~= seq![54i8, 52i8] { 2 } else if x =~= seq![115i8, 97i8, 102i8, 101i8] { 3 } else if x =~= seq![105i8, 110i8, 102i8] { 4 } else { -1 } }
pub open spec fn type_asked(o: Option_) -> int { match o { Option_::Nothing => 5, Option_::Value(x) => type_named(x), Option_::Malformed => -1 } }
// the methods (numbers as in enum Method)
pub open spec fn method_named(x: Seq<i8>) -> int {
  if x =~= seq![100i8, 100i8] || x =~= seq![100i8, 111i8, 117i8, 98i8, 108i8, 101i8, 45i8, 100i8, 101i8, 115i8, 99i8, 114i8, 105i8, 112i8, 116i8, 105i8, 111i8, 110i8] || x =~= seq![100i8, 111i8, 117i8, 98i8, 108i8, 101i8, 95i8, 100i8, 101i8, 115i8, 99i8, 114i8, 105i8, 112i8, 116i8, 105i8, 111i8, 110i8] { 1 }
  else if x =~= seq![97i8, 100i8] || x =~= seq![97i8, 100i8, 106i8, 97i8, 99i8, 101i8, 110i8, 99i8, 121i8, 45i8, 100i8, 101i8, 99i8, 111i8, 109i8, 112i8, 111i8, 115i8, 105i8, 116i8, 105i8, 111i8, 110i8] || x =~= seq![97i8, 100i8, 106i8, 97i8, 99i8, 101i8, 110i8, 99i8, 121i8, 95i8, 100i8, 101i8, 99i8, 111i8, 109i8, 112i8, 111i8, 115i8, 105i8, 116i8, 105i8, 111i8, 110i8] { 0 } else { -1 } }
pub open spec fn method_asked(o: Option_) -> int { match o { Option_::Nothing => 0, Option_::Value(x) => method_named(x), Option_::Malformed => -1 } }
