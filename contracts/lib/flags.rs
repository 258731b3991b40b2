// whether one of the arguments is the flag
pub open spec fn has_flag(argv: Seq<Seq<i8>>, i: int, a: Seq<i8>, b: Seq<i8>) -> bool decreases argv.len() - i { if i < 0 || i >= argv.len() { false } else { argv[i] =~= a || argv[i] =~= b || has_flag(argv, i + 1, a, b) } }
pub open spec fn check_asked(argv: Seq<Seq<i8>>) -> bool { has_flag(argv, 1, seq![45i8, 99i8], seq![45i8, 45i8, 99i8, 104i8, 101i8, 99i8, 107i8]) }
pub open spec fn filter_asked(argv: Seq<Seq<i8>>) -> bool { has_flag(argv, 1, seq![45i8, 102i8], seq![45i8, 45i8, 102i8, 105i8, 108i8, 116i8, 101i8, 114i8]) }
