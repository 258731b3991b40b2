@unit dispatch_vertex
@tu src/method_vertex_enumeration.cpp
@mode Z
@native int
@streams
@lib prelude cstr options dispatch
@import dispatch_ad dispatch_dd opt_method

@fn panda::method::vertexEnumeration(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the method and the integer type asked for] asked_type(argv) >= 0 && asked_method(argv) >= 0 && result == outcome(1, asked_method(argv), width(asked_type(argv)), argv)
@exc [refused only if an option is malformed] asked_type(argv) == -1 || asked_method(argv) == -1
