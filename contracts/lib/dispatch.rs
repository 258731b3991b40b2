// what the program of a mode (0: facets, 1: vertices), a method and an integer type returns
pub uninterp spec fn outcome(mode: int, method: int, ty: int, argv: Seq<Seq<i8>>) -> int;
pub uninterp spec fn outcome_help(argv: Seq<Seq<i8>>) -> int;
// the default integer type is int, of 32 bits
pub open spec fn width(t: int) -> int { if t == 5 { 1 } else { t } }
pub open spec fn asked_type(argv: Seq<Seq<i8>>) -> int { type_asked(opt(argv, 1, 105, long_i())) }
pub open spec fn asked_method(argv: Seq<Seq<i8>>) -> int { method_asked(opt(argv, 1, 109, long_m())) }
