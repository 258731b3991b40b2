@unit opt_mode
@tu src/input_detection.cpp
@mode Z
@native int
@streams
@lib prelude cstr string stream keywords options modes
@import keywords stream
@ignored binary_name

@fn requiresParameter(argument)
@pure needs_parameter(argument)
@ensures [all but -c, -f, and those that contain it] result == needs_parameter(argument)

@fn panda::getFilename(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the argument that is no option] file_named(argv, 1, Seq::empty()) == Some(result)
@exc [refused only if several arguments are no options] file_named(argv, 1, Seq::empty()).is_none()
@loop 0
@invariant [so far] 1 <= i && file_named(argv, i as int, name) == file_named(argv, 1, Seq::empty())
@decreases argc + 1 - i

@fn keywords(pg)
@ensures [the kinds of keywords of the file] forall|k: i32| #[trigger] result.contains(k) <==> 0 <= k <= 2 && holds_kw(pg, k as int)
@loop 0
@before ghost S = pg; ghost Q = pg.p;
@invariant [what is left of the file] pg.s == S.s && (S.f || S.e ==> pg.f || pg.e)
@invariant [so far] forall|k: i32| 0 <= k <= 2 ==> (words.contains(k) || holds_kw(pg, k as int) <==> holds_kw(S, k as int))
@invariant [nothing else] forall|k: i32| words.contains(k) ==> 0 <= k <= 2
@decreases pg.s.len() - pg.p
@invariant [read from here] Q == pg.p
@start assert(line == line_at(S.s, Q));
@end assert(line == trim(line_at(S.s, Q))); lemma_kinds(line); lemma_line_end(S.s, Q); assert forall|k: i32| 0 <= k <= 2 implies (words.contains(k) || holds_kw(pg, k as int) <==> holds_kw(S, k as int)) by { assert(has_kw(S.s, Q, k as int) == (kw_of(k as int, line) || has_kw(S.s, line_end(S.s, Q) + 1, k as int))); assert(has_kw(S.s, line_end(S.s, Q) + 1, k as int) == holds_kw(pg, k as int)); } Q = pg.p;

@fn commandLineModeOption(argc, argv)
@requires argc == argv.len() && argc > 0
@ensures [help or version if asked for] (result == 2 || result == 3 || result == 4 || result == 6) && result as int == (if argc == 1 { 3 } else { mode_option(argv, 1) })
@loop 0
@invariant [none so far] 1 <= i && mode_option(argv, i as int) == mode_option(argv, 1)

@fn panda::detectOperationMode(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [what the options ask for, or else the keywords of the file] 0 <= result <= 5 && result as int == selected(argv)
@ensures [a file name is needed only then] argc == 1 || mode_option(argv, 1) != 6 || file_named(argv, 1, Seq::empty()).is_some()
@exc [refused only if several arguments are no options] argc > 1 && mode_option(argv, 1) == 6 && file_named(argv, 1, Seq::empty()).is_none()
@call keywords 0 after assert(result =~= Set::empty() || result.contains(0i32) || result.contains(1i32) || result.contains(2i32)); assert(holds_kw(file, 0) == result.contains(0i32) && holds_kw(file, 1) == result.contains(1i32) && holds_kw(file, 2) == result.contains(2i32));
