@unit opt_method
@tu src/input_method.cpp
@mode Z
@native int
@lib prelude cstr options

@fn detectMethod(argument)
@throws
@ensures [the method named] result >= 0 && result as int == method_named(argument)
@exc [refused only if no method is named so] method_named(argument) == -1

@fn panda::input::method(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the method asked for] result >= 0 && result as int == method_asked(opt(argv, 1, 109, long_m()))
@exc [refused only if the option is malformed] method_asked(opt(argv, 1, 109, long_m())) == -1
@loop 0
@invariant [no option so far] 1 <= i && opt(argv, i, 109, long_m()) == opt(argv, 1, 109, long_m())
