@unit opt_check
@tu src/input_validity.cpp
@mode Z
@native int
@lib prelude cstr flags

@foreach F S A B in checkValidity|check_asked|seq![45i8,99i8]|seq![45i8,45i8,99i8,104i8,101i8,99i8,107i8] filterInvalidInput|filter_asked|seq![45i8,102i8]|seq![45i8,45i8,102i8,105i8,108i8,116i8,101i8,114i8]
@fn panda::input::$F$(argc, argv)
@requires argc == argv.len() && argc > 0
@ensures [whether the flag is given] result == $S$(argv)
@loop 0
@invariant [not so far] 1 <= i && has_flag(argv, i, $A$, $B$) == $S$(argv)
@endfor
