"""Which contract units and which counterexample driver decide each property."""
BIG = ["big_integer.cpp", "big_integer_arithmetics.cpp", "big_integer_comparisons.cpp", "big_integer_constructors.cpp"]
ROWS = BIG + ["algorithm_integer_operations.cpp", "algorithm_row_operations.cpp", "algorithm_inequality_operations.cpp", "cast.cpp"]
MATS = ROWS + ["algorithm_matrix_operations.cpp"]
MAPS = ROWS + ["algorithm_map_operations.cpp"]
FME = MATS + ["algorithm_fourier_motzkin_elimination.cpp", "bitset_variable_size.cpp", "delayed_action.cpp"]
IMPL = "Machine arithmetic is modelled exactly (wrap-around of unsigned, overflow of signed types as an obligation); nothing about numbers is idealised."
READ = MAPS + ["algorithm_matrix_operations.cpp", "algorithm_classes.cpp", "istream_peek_line.cpp", "scope_guard.cpp", "position_guarded_file.cpp", "input.cpp", "input_common.cpp", "input_consistency.cpp", "input_constraint.cpp",
    "input_constraint_named_variables.cpp", "input_constraint_unnamed_variables.cpp", "input_detection.cpp", "input_dimension.cpp", "input_keywords.cpp", "input_map.cpp", "input_names.cpp", "input_validity.cpp", "input_vertex.cpp"]
ALL = sorted(set(READ + FME + ["algorithm_rotation.cpp", "list.cpp", "job_manager.cpp", "job_manager_proxy.cpp", "joining_thread.cpp", "communication.cpp", "concurrency.cpp", "message_passing_interface_session.cpp", "method_adjacency_decomposition.cpp",
    "method_adjacency_decomposition_implementation.cpp", "method_double_description.cpp", "method_facet_enumeration.cpp", "method_vertex_enumeration.cpp", "input_method.cpp", "integer_type_detection.cpp", "integer_type_selection.cpp", "help.cpp", "safe_integer.cpp",
    "safe_integer_arithmetics.cpp", "safe_integer_comparisons.cpp", "safe_integer_constructors.cpp", "bitset_fixed_size.cpp", "range.cpp"]))
NATIVE = "Rows of input are native ints: the statement is about runs in which no value overflows (recorded as assumptions). What is read from a stream is arbitrary in the proof: the contracts hold for every content of the file."
PROPS = {
    "P01": dict(note=IMPL, units=["bigint_add"], driver="p01.cpp", srcs=BIG),
    "P02": dict(note=IMPL, units=["bigint_mul"], driver="p02.cpp", srcs=BIG),
    "P03": dict(note=IMPL, units=["bigint_div"], driver="p03.cpp", srcs=BIG),
    "P04": dict(note=IMPL, units=["bigint_cmp"], driver="p04.cpp", srcs=BIG),
    "P05": dict(note=IMPL, units=["safeint"], driver="p05.cpp", srcs=[]),
    "P06": dict(units=["integer_ops", "row_ops"], roots="gcd|lcm", driver="p06.cpp", srcs=ROWS),
    "P07": dict(units=["row_ops"], roots="^operator", driver="p07.cpp", srcs=ROWS),
    "P08": dict(units=["row_ops"], roots="normalize", driver="p08.cpp", srcs=ROWS),
    "P09": dict(units=["matrix_ops"], roots=r"^operator\*|transpose|appendNegative", driver="p09.cpp", srcs=MATS),
    "P10": dict(units=["gauss"], roots="dimension|extractEquations", driver="p10.cpp", srcs=MATS),
    "P11": dict(note=IMPL + " Fixed size bitsets: every member function is verified in the instantiation for each of the 17 sizes the elimination uses.", units=["bitset_variable", "bitset_fixed"], driver="p11.cpp", srcs=["bitset_variable_size.cpp"]),
    "P12": dict(units=["fme"], roots="fourierMotzkinElimination", driver="p12.cpp", srcs=FME, nosan=True),
    "P13": dict(units=["inequality_ops"], driver="p13.cpp", srcs=ROWS),
    "P14": dict(units=["rotation"], driver="p14.cpp", srcs=FME + ["algorithm_map_operations.cpp", "algorithm_classes.cpp", "algorithm_rotation.cpp"], nosan=True),
    "P15": dict(units=["map_apply"], roots="apply", driver="p15.cpp", srcs=MAPS),
    "P16": dict(units=["classes"], driver="p16.cpp", srcs=MAPS + ["algorithm_classes.cpp"]),
    "P17": dict(note="The factors of maps are native ints: the statement is about runs in which no factor overflows (recorded as assumptions).", units=["map_normalize"], driver="p17.cpp", srcs=MAPS),
    "P18": dict(note="The checks compute with native ints: the statement is about runs in which no value overflows (recorded as assumption).", units=["validity"], driver="p18.cpp", srcs=MATS + ["algorithm_map_operations.cpp", "input_validity.cpp"]),
    "P19": dict(units=["cast"], driver="p19.cpp", srcs=["cast.cpp"] + BIG),
    "P20": dict(note="Entries of input are native ints: the statement is about rows whose scaled entries fit an int (recorded as assumptions). The stream is its characters, position, failbit and eofbit; the functions of std::istream are read as the state machine of the standard (contracts/lib/stream.rs).",
        units=["vertex_text", "stream", "keywords"], driver="p20.cpp", srcs=READ),
    "P21": dict(note="Entries of input are native ints: the statement is about constraints whose entries and their negations fit an int (recorded as assumptions). The stream is its characters, position, failbit and eofbit; the functions of std::istream are read as the state machine of the standard (contracts/lib/stream.rs).",
        units=["constraint_text", "constraint_named", "constraint_plain", "relation", "names", "stream", "keywords"], driver="p21.cpp", srcs=READ),
    "P22": dict(note=NATIVE, units=["input_main"], driver="p22.cpp", srcs=READ),
    "P23": dict(note="The functions that print ints compute with native ints: the statement is about entries whose opposites fit an int (recorded as assumption). An output stream is the characters written so far; std::ostream with its default flags and without failures is trusted. Reading back is a lemma over the contracts of the readers (P20, P21).",
        units=["print", "print_matrix", "print_reads", "cast"], driver="p23.cpp", srcs=READ),
    "P24": dict(note="Interleavings: the data of the list is a monitor. Each function is verified against an arbitrary state of the shared data that satisfies the invariant whenever the lock is taken, and has to re-establish the invariant and the rely relation whenever it is given back. That the worker threads come to an end is not proved; the notifications are obligations, and the search runs with a watchdog.", units=["list"], driver="p24.cpp", tsan=True, seconds=12,
        srcs=FME + ["algorithm_map_operations.cpp", "algorithm_classes.cpp", "algorithm_rotation.cpp", "list.cpp", "job_manager.cpp", "job_manager_proxy.cpp", "joining_thread.cpp", "communication.cpp", "concurrency.cpp", "message_passing_interface_session.cpp", "method_adjacency_decomposition_implementation.cpp"]),
    "P27": dict(note="What the program of a mode, a method and an integer type computes is the subject of the other properties: here it is an uninterpreted value of (mode, method, type, arguments), by name (contracts/dispatch_run.vc). The text of a file is an uninterpreted function of its name; std::ifstream reads it or fails. The number of processors is arbitrary.",
        units=["opt_integer", "opt_method", "opt_threads", "opt_known", "opt_check", "opt_mode", "dispatch_ad", "dispatch_dd", "dispatch_facet", "dispatch_vertex", "dispatch_main", "keywords", "stream"], driver="p27.cpp", srcs=ALL),
    "P26": dict(note=NATIVE, units=["consistency", "input_main", "input_map"], driver="p26.cpp", srcs=READ),
}
