@unit dispatch_run
@assumed
@mode Z
@native int
@streams
@lib prelude cstr options dispatch

@foreach F M A in FacetEnumerationAdjacencyDecomposition|0|0 VertexEnumerationAdjacencyDecomposition|1|0 FacetEnumerationDoubleDescription|0|1 VertexEnumerationDoubleDescription|1|1
@fn $F$::call(argc, argv) key "$F$<short>"
@requires argc == argv.len() && argc > 0
@ensures [its result] result == outcome($M$, $A$, 0, argv)
@fn $F$::call(argc, argv) key "$F$<int>"
@requires argc == argv.len() && argc > 0
@ensures [its result] result == outcome($M$, $A$, 1, argv)
@fn $F$::call(argc, argv) key "$F$<long>"
@requires argc == argv.len() && argc > 0
@ensures [its result] result == outcome($M$, $A$, 2, argv)
@fn $F$::call(argc, argv) key "$F$<panda::SafeInteger>"
@requires argc == argv.len() && argc > 0
@ensures [its result] result == outcome($M$, $A$, 3, argv)
@fn $F$::call(argc, argv) key "$F$<panda::BigInteger>"
@requires argc == argv.len() && argc > 0
@ensures [its result] result == outcome($M$, $A$, 4, argv)
@endfor

@fn panda::help::command(argc, argv)
@requires argc == argv.len() && argc > 0
@ensures [its result] result == outcome_help(argv)
