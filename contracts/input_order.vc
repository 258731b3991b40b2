@unit input_order
@tu src/input_detection.cpp
@mode Z
@native int
@lib prelude cstr input_order

@fn ascending(argument)
@ensures [descending only if named so] result == !(starts(argument, seq![100i8, 101i8, 115i8, 99i8]) || starts(argument, seq![100i8, 111i8, 119i8, 110i8]) || starts(argument, seq![100i8, 101i8, 99i8]))

@fn inputOrderLexicographic(argument)
@requires argument =~= seq![108i8, 101i8, 120i8] || starts(argument, seq![108i8, 101i8, 120i8, 95i8]) || argument =~= seq![108i8, 101i8, 120i8, 105i8, 99i8, 111i8, 103i8, 114i8, 97i8, 112i8, 104i8, 105i8, 99i8] || starts(argument, seq![108i8, 101i8, 120i8, 105i8, 99i8, 111i8, 103i8, 114i8, 97i8, 112i8, 104i8, 105i8, 99i8, 95i8])
@ensures [the direction named] (result == 1 || result == 2) && names_order(argument, result)

@fn inputOrderNonZeroEntries(argument)
@requires argument =~= seq![110i8, 122i8] || starts(argument, seq![110i8, 122i8, 95i8]) || argument =~= seq![110i8, 111i8, 110i8, 122i8, 101i8, 114i8, 111i8] || starts(argument, seq![110i8, 111i8, 110i8, 122i8, 101i8, 114i8, 111i8, 95i8])
@ensures [the direction named] (result == 3 || result == 4) && names_order(argument, result)

@fn inputOrder(argument)
@throws
@ensures [the order named] 1 <= result <= 5 && names_order(argument, result)
@exc [refused only if no order is named so] !named(argument)

@fn panda::getInputOrder(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the order asked for] order_asked(asked(argv, 1), result)
@exc [refused only if the option is malformed] refused(asked(argv, 1))
@loop 0
@invariant [no option so far] 1 <= i && asked(argv, i) == asked(argv, 1)
