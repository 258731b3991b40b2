@unit opt_threads
@tu src/concurrency.cpp
@mode Z
@native int
@streams
@lib prelude cstr string stream options threads

@fn interpretParameter(string)
@throws
@ensures [the number] threads_named(string) == Some(result as int)
@exc [refused only if it is no positive number] threads_named(string).is_none()

@fn panda::concurrency::numberOfThreads(argc, argv)
@requires argc == argv.len() && argc > 0
@throws
@ensures [the number asked for] threads_asked(opt(argv, 1, 116, long_t()), result as int)
@exc [refused only if the option is malformed] threads_refused(opt(argv, 1, 116, long_t()))
@loop 0
@invariant [no option so far] 1 <= i && opt(argv, i, 116, long_t()) == opt(argv, 1, 116, long_t())
