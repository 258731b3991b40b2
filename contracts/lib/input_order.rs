// the names of the orders (help text of --sorting)
pub open spec fn named_1(x: Seq<i8>) -> bool { x =~= seq![108i8, 101i8, 120i8, 105i8, 99i8, 111i8, 103i8, 114i8, 97i8, 112i8, 104i8, 105i8, 99i8, 95i8, 97i8, 115i8, 99i8, 101i8, 110i8, 100i8, 105i8, 110i8, 103i8] || x =~= seq![108i8, 101i8, 120i8, 95i8, 97i8, 115i8, 99i8] || x =~= seq![108i8, 101i8, 120i8, 95i8, 117i8, 112i8] || x =~= seq![108i8, 101i8, 120i8] || x =~= seq![108i8, 101i8, 120i8, 105i8, 99i8, 111i8, 103i8, 114i8, 97i8, 112i8, 104i8, 105i8, 99i8] }
pub open spec fn named_2(x: Seq<i8>) -> bool { x =~= seq![108i8, 101i8, 120i8, 105i8, 99i8, 111i8, 103i8, 114i8, 97i8, 112i8, 104i8, 105i8, 99i8, 95i8, 100i8, 101i8, 115i8, 99i8, 101i8, 110i8, 100i8, 105i8, 110i8, 103i8] || x =~= seq![108i8, 101i8, 120i8, 95i8, 100i8, 101i8, 115i8, 99i8] || x =~= seq![108i8, 101i8, 120i8, 95i8, 100i8, 111i8, 119i8, 110i8] }
pub open spec fn named_3(x: Seq<i8>) -> bool { x =~= seq![110i8, 111i8, 110i8, 122i8, 101i8, 114i8, 111i8, 95i8, 97i8, 115i8, 99i8, 101i8, 110i8, 100i8, 105i8, 110i8, 103i8] || x =~= seq![110i8, 122i8, 95i8, 97i8, 115i8, 99i8] || x =~= seq![110i8, 122i8, 95i8, 117i8, 112i8] || x =~= seq![110i8, 122i8] || x =~= seq![110i8, 111i8, 110i8, 122i8, 101i8, 114i8, 111i8] }
pub open spec fn named_4(x: Seq<i8>) -> bool { x =~= seq![110i8, 111i8, 110i8, 122i8, 101i8, 114i8, 111i8, 95i8, 100i8, 101i8, 115i8, 99i8, 101i8, 110i8, 100i8, 105i8, 110i8, 103i8] || x =~= seq![110i8, 122i8, 95i8, 100i8, 101i8, 115i8, 99i8] || x =~= seq![110i8, 122i8, 95i8, 100i8, 111i8, 119i8, 110i8] }
pub open spec fn named_5(x: Seq<i8>) -> bool { x =~= seq![114i8, 101i8, 118i8, 101i8, 114i8, 115i8, 101i8] || x =~= seq![114i8, 101i8, 118i8] }
pub open spec fn named(x: Seq<i8>) -> bool { named_1(x) || named_2(x) || named_3(x) || named_4(x) || named_5(x) }
pub open spec fn names_order(x: Seq<i8>, o: i32) -> bool {
  (named_1(x) ==> o == 1) && (named_2(x) ==> o == 2) && (named_3(x) ==> o == 3) && (named_4(x) ==> o == 4) && (named_5(x) ==> o == 5)
}
// what the first option for the order asks for
pub enum Asked { Nothing, Order(Seq<i8>), Malformed }
pub open spec fn asked(argv: Seq<Seq<i8>>, i: int) -> Asked decreases argv.len() - i {
  if i < 0 || i >= argv.len() { Asked::Nothing }
  else if argv[i] =~= seq![45i8, 115i8] { if i + 1 == argv.len() { Asked::Malformed } else { Asked::Order(argv[i + 1]) } }
  else if starts(argv[i], seq![45i8, 115i8, 61i8]) { Asked::Order(argv[i].skip(3)) }
  else if starts(argv[i], seq![45i8, 45i8, 115i8, 111i8, 114i8, 116i8, 105i8, 110i8, 103i8, 61i8]) { Asked::Order(argv[i].skip(10)) }
  else if starts(argv[i], seq![45i8, 115i8]) || starts(argv[i], seq![45i8, 45i8, 115i8]) { Asked::Malformed }
  else { asked(argv, i + 1) }
}
pub open spec fn order_asked(a: Asked, o: i32) -> bool {
  match a { Asked::Nothing => o == 0, Asked::Order(x) => o != 0 && names_order(x, o), Asked::Malformed => false }
}
pub open spec fn refused(a: Asked) -> bool { match a { Asked::Nothing => false, Asked::Order(x) => !named(x), Asked::Malformed => true } }
