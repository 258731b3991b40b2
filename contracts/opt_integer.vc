@unit opt_integer
@tu src/integer_type_detection.cpp
@mode Z
@native int
@lib prelude cstr options

@fn integerTypeFromString(string)
@throws
@ensures [the type named] result >= 0 && result as int == type_named(string)
@exc [refused only if no type is named so] type_named(string) == -1

@fn panda::integerType(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the type asked for] result >= 0 && result as int == type_asked(opt(argv, 1, 105, long_i()))
@exc [refused only if the option is malformed] type_asked(opt(argv, 1, 105, long_i())) == -1
@loop 0
@invariant [no option so far] 1 <= i && opt(argv, i, 105, long_i()) == opt(argv, 1, 105, long_i())
