@unit opt_known
@tu src/input.cpp
@mode Z
@native int
@lib prelude cstr options known

@foreach F W in getFilenameKnownFacets|0 getFilenameKnownVertices|1
@fn $F$(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the file named] known_is(known_named(argv, 1, $W$), result)
@exc [refused only if the option is malformed] known_named(argv, 1, $W$) == Option_::Malformed
@loop 0
@invariant [no option so far] 1 <= i && known_named(argv, i, $W$) == known_named(argv, 1, $W$)
@endfor
