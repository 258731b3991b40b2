@unit dispatch_main
@tu src/main.cpp
@mode Z
@native int
@streams
@lib prelude cstr string stream keywords options modes dispatch
@import dispatch_facet dispatch_vertex opt_mode dispatch_run
@open printHelp printVersion

@fn main(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the computation of the mode that the options or the keywords select] ({ let m = selected(argv); if m == 0 || m == 1 { asked_type(argv) >= 0 && asked_method(argv) >= 0 && result == outcome(m, asked_method(argv), width(asked_type(argv)), argv) } else if m == 2 { result == outcome_help(argv) } else if m == 3 || m == 4 { result == 0 } else { result == 1 } })
@exc [refused only if an option is malformed, or several files are named] ({ let m = selected(argv); (m == 0 || m == 1) && (asked_type(argv) == -1 || asked_method(argv) == -1) || (argc > 1 && mode_option(argv, 1) == 6 && file_named(argv, 1, Seq::empty()).is_none()) })
