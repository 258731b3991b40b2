@unit input_main
@tu src/input.cpp
@mode Z
@native int
@lib sorting input_main
@import input_sort consistency input_rows input_vertex input_map gauss@int map_normalize@int validity row_ops@int
@open panda::getFilename panda::input::implementation::containsKeywords panda::input::advanceToNextKeyword panda::input::checkValidity
@open panda::input::implementation::isKeywordDimension panda::input::implementation::isKeywordNames panda::input::implementation::isKeywordMaps panda::input::implementation::isKeywordEquations panda::input::implementation::isKeywordInequalities panda::input::implementation::isKeywordReducedInequalities
@open panda::input::implementation::isKeywordConvexHull panda::input::implementation::isKeywordReducedConvexHull panda::input::implementation::isKeywordConicalHull panda::input::implementation::isKeywordReducedConicalHull
@open panda::input::implementation::dimension panda::input::implementation::names
@open getFilenameKnownFacets getFilenameKnownVertices

@fn checkDimension(matrix, maps)
@throws
@ensures [every map applies to every row] maps_apply(maps, matrix)
@exc [raises only if some map does not apply to some row] !maps_apply(maps, matrix)
@loop 0
@invariant [rows so far] forall|i: int, j: int| 0 <= i < $k && 0 <= j < maps.len() ==> (#[trigger] maps[j]).len() == (#[trigger] matrix[i]).len()
@loop 1
@invariant [maps so far] forall|j: int| 0 <= j < $k ==> (#[trigger] maps[j]).len() == row.len()

@fn independentEquations(equations)
@requires equations.len() > 0 ==> equations[0].len() > 0 && rect(equations, equations[0].len())
@throws
@ensures [independent, no leading coordinate occurs in another equation] equations.len() == 0 ==> result.len() == 0
@ensures [independent, no leading coordinate occurs in another equation] equations.len() > 0 ==> propers(result, equations[0].len()) && echelon(result, equations[0].len() as int)
@call extractEquations 1 after lemma_independent(result, solutions, equations[0].len() as int);
@exc [raises only if there is no solution] equations.len() > 0 && exists|s: Seq<Seq<int>>| #[trigger] equations_of(s, equations, equations[0].len() as int) && s.len() == 0

@foreach F S H in readVerticesConvex|filled(result)|conv readVerticesConical|filled(result)|cone
@fn $F$(argc, argv, file, maps)
@requires self_maps(maps)
@throws
@ensures [rows are not empty] filled(result)
@call checkDimension 0 after if $H$.len() > 0 { lemma_self_maps(maps, $H$); }
@endfor

@foreach F V in readVerticesReducedConvex|conv readVerticesReducedConical|cone
@fn $F$(argc, argv, file, maps)
@requires self_maps(maps)
@throws
@ensures [the classes of some rows] maps.len() > 0 && exists|rows: Seq<Seq<int>>| #[trigger] filled(rows) && expanded(1, maps, rows, rows.len() as int, result) && maps_apply(maps, rows)
@ensures [rows are not empty] filled(result)
@call checkDimension 0 after ghost ROWS = $V$; if ROWS.len() > 0 { lemma_self_maps(maps, ROWS); }
@call expandVertices 0 after lemma_expanded_filled(1, maps, ROWS, ROWS.len() as int, $V$);
@endfor

@fn readInequalities(argc, argv, file, names, maps)
@requires self_maps(maps)
@throws
@ensures [rows are not empty] filled(result)
@call checkDimension 0 after if inequalities.len() > 0 { lemma_self_maps(maps, inequalities); }

@fn readReducedInequalities(argc, argv, file, names, maps, equations)
@requires self_maps(maps) && filled(equations)
@throws
@ensures [the classes of some rows, under the maps normalised by the equations] maps.len() > 0 && exists|rows: Seq<Seq<int>>, ms: Seq<Seq<Seq<(u64, i32)>>>, e: Seq<Seq<int>>| #[trigger] normal_input(rows, ms, maps, e) && expanded(0, ms, rows, rows.len() as int, result) && filled(rows) && maps_apply(maps, rows)
@ensures [rows are not empty] filled(result)
@call checkDimension 1 after if equations.len() > 0 { lemma_self_maps(maps, equations); }
@loop 0
@before assert(suits(independent_equations, maps));
@invariant [rows fit the maps] filled(inequalities) && maps_apply(maps, inequalities)
@invariant [normalised so far] forall|i: int| 0 <= i < $k ==> in_normal_form(#[trigger] inequalities[i], independent_equations)
@start ghost ROW = inequalities[$k]; if maps.len() > 0 { assert(maps[0].len() == inequalities[$k].len()); }
@end assert(in_normal_form(inequalities[$k - 1], independent_equations)); lemma_redall(ROW, independent_equations); lemma_primitive(redall(ROW, independent_equations)); assert(inequalities[$k - 1].len() == ROW.len()); assert forall|i: int, j: int| 0 <= i < inequalities.len() && 0 <= j < maps.len() implies (#[trigger] maps[j]).len() == (#[trigger] inequalities[i]).len() by { assert(maps[j].len() == start(inequalities)[i].len()); }
@call normalize 1 before assert forall|k: int| 0 <= k < maps.len() implies is_map(#[trigger] maps[k], maps[k].len() as int) && echelon(independent_equations, maps[k].len() as int) by { }
@call normalize 1 after ghost ROWS = inequalities; assert forall|k: int| 0 <= k < result.len() implies is_map(#[trigger] result[k], result[k].len() as int) && result[k].len() == maps[k].len() by { assert(normal_map(result[k], maps[k], independent_equations)); } if ROWS.len() > 0 { lemma_self_maps(result, ROWS); }
@call expandInequalities 0 after assert(normal_input(ROWS, tmp_maps, maps, independent_equations)); lemma_expanded_filled(0, tmp_maps, ROWS, ROWS.len() as int, inequalities);

@fn knownFacets(argc, argv, names)
@throws
@ensures [rows are not empty] filled(result)

@fn knownVertices(argc, argv)
@throws
@opt nodec
@ensures [rows are not empty] filled(result)
@loop 0
@invariant [rows so far] filled(conv) && filled(cone)

@fn panda::input::inequalities(argc, argv) key "panda::input::inequalities<int>"
@requires argc == argv.len() && argc > 0
@throws
@opt nodec
@ensures [the rows given and both directions of the equations, in the order asked for] exists|given: Seq<Seq<int>>, eqs: Seq<Seq<int>>| sorted_as(asked(argv, 1), #[trigger] with_equations(given, eqs), result.0.drop_last())
@ensures [some row, the trivial one last] result.0.len() > 1 && result.0[result.0.len() - 1] =~= trivial(result.0[0].len() as int)
@ensures [one dimension] all_len(result.0, result.0[0].len() as int) && maps_apply(result.2, result.0) && header_fits(result.1, u64::MAX, result.0[0].len() as int) && all_len(result.3, result.0[0].len() as int)
@loop 0
@invariant [rows are not empty, maps of coordinates] filled(inequalities) && filled(equations) && self_maps(maps)
@after ghost GIVEN = inequalities; ghost EQS = equations;
@loop 1
@before assert(inequalities =~= GIVEN + both(EQS, 0));
@invariant [both directions of the equations so far] inequalities =~= GIVEN + both(EQS, $k)
@after assert(inequalities =~= GIVEN + both(EQS, EQS.len() as int));
@call checkConsistency 1 after ghost N = inequalities[0].len() as int;
@call sort 0 before ghost ALL = inequalities; assert(ALL =~= GIVEN + both(EQS, EQS.len() as int));
@call sort 0 after ghost SORTED = inequalities; lemma_same_len(SORTED, ALL, N); assert(N > 0) by { assert(GIVEN.len() > 0); assert(ALL[0] == GIVEN[0]) by { assert(ALL =~= GIVEN + both(EQS, EQS.len() as int)); } }
@return let l_ = SORTED.len() as int; assert(SORTED[0].len() == N && SORTED[l_ - 1].len() == N); assert(result.0[l_].len() == N); assert(result.0[l_] =~= trivial(N)); assert(result.0 =~= SORTED.push(trivial(N))); assert(result.0.drop_last() =~= SORTED); assert(ALL =~= with_equations(GIVEN, EQS)); assert(sorted_as(asked(argv, 1), ALL, SORTED));

@fn panda::input::vertices(argc, argv) key "panda::input::vertices<int>"
@requires argc == argv.len() && argc > 0
@throws
@opt nodec
@ensures [some row] result.0.len() > 0
@ensures [the rays in the order asked for, followed by the vertices in the order asked for] exists|cone: Seq<Seq<int>>, conv: Seq<Seq<int>>, n: int| 0 <= n <= result.0.len() && sorted_as(asked(argv, 1), cone, #[trigger] result.0.take(n)) && sorted_as(asked(argv, 1), conv, #[trigger] result.0.skip(n)) && #[trigger] header_fits(result.1, u64::MAX, width(conv, cone))
@ensures [one dimension] all_len(result.0, result.0[0].len() as int) && maps_apply(result.2, result.0) && header_fits(result.1, u64::MAX, result.0[0].len() as int) && all_len(result.3, result.0[0].len() as int)
@loop 0
@invariant [rows are not empty, maps of coordinates] filled(conv) && filled(cone) && self_maps(maps)
@after ghost CONV = conv; ghost CONE = cone;
@call sort 0 after lemma_same_len(cone, CONE, width(CONV, CONE));
@call sort 1 after lemma_same_len(conv, CONV, width(CONV, CONE));
@return assert(result.0 =~= cone + conv); let n_ = cone.len() as int; assert(result.0.take(n_) =~= cone); assert(result.0.skip(n_) =~= conv); assert(sorted_as(asked(argv, 1), CONE, result.0.take(n_))); assert(sorted_as(asked(argv, 1), CONV, result.0.skip(n_))); assert(header_fits(result.1, u64::MAX, width(CONV, CONE)));
