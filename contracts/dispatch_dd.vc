@unit dispatch_dd
@tu src/method_double_description.cpp
@mode Z
@native int
@streams
@lib prelude cstr options dispatch
@import dispatch_run opt_integer
@ignored application_acronym
@open panda::mpi::getSession panda::mpi::Session::isMaster

@foreach F M in FacetEnumeration|0 VertexEnumeration|1
@fn panda::IntegerTypeSelector::select(argc, argv) key "$F$"
@requires argc == argv.len() && argc > 0
@throws
@ensures [the integer type asked for] asked_type(argv) >= 0 && result == outcome($M$, 1, width(asked_type(argv)), argv)
@exc [refused only if the option is malformed] asked_type(argv) == -1
@fn panda::method::doubleDescription(argc, argv) key "$F$"
@requires argc == argv.len() && argc > 0
@throws
@ensures [the mode and the method] asked_type(argv) >= 0 && result == outcome($M$, 1, width(asked_type(argv)), argv)
@exc [refused only if the option is malformed] asked_type(argv) == -1
@endfor
