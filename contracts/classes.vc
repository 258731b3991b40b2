@unit classes
@tu src/algorithm_classes.cpp
@mode Z
@lib maps sets classes
@import row_ops map_apply

@foreach T K in facet|0 vertex|1
@fn panda::algorithm::getClass(row, maps, tag) key "getClass<panda::BigInteger, panda::tag::$T$>"
@requires are_maps(maps, row.len() as int)
@opt nodec
@ensures [the row, closed under the maps, nothing that is not reached] is_class($K$, maps, row, result) && rows_of(result, row.len() as int)
@entry ghost FIN = finite_orbit($K$, maps, row); ghost F = choose|f: Set<Seq<int>>| #[trigger] all_reached($K$, maps, row, f); lemma_reach_self($K$, maps, row);
@loop 0
@before assert(rows =~= Set::<Seq<int>>::empty().insert(row)); assert(set_enum(rows).contains(row)); assert(set_enum(rows).len() == 1); assert(iterators =~= seq![Some(row)]); assert forall|x: Seq<int>| #[trigger] rows.contains(x) implies iterators.contains(Some(x)) by { assert(iterators[0] == Some(x)); } assert(visiting($K$, maps, row, rows, iterators));
@invariant [rows found are reached, and closed under the maps or still to visit] visiting($K$, maps, row, rows, iterators)
@start lemma_visit_start($K$, maps, row, rows, iterators);
@end lemma_visit_end($K$, maps, row, rows, iterators, current_row); assert(FIN ==> 0 <= 2 * (F.len() - rows.len()) + iterators.len() < 2 * (F.len() - start(rows).len()) + start(iterators).len()) by { if FIN { lemma_orbit_bound($K$, maps, row, rows, F); } }
@after lemma_class($K$, maps, row, rows);
@loop 1
@invariant [images so far] visit($K$, maps, row, rows, iterators, current_row, $k) && 2 * (F.len() - rows.len()) + iterators.len() <= 2 * (F.len() - pre(rows).len()) + pre(iterators).len()
@start lemma_visit_in($K$, maps, row, rows, iterators, current_row, $k); assert(is_map(maps[$k], row.len() as int));
@end lemma_visit_step($K$, maps, row, start(rows), start(iterators), current_row, $k - 1, rows, iterators);

@fn panda::algorithm::classRepresentative(row, maps, tag) key "classRepresentative<panda::BigInteger, panda::tag::$T$>"
@requires are_maps(maps, row.len() as int)
@ensures [the greatest row that is reached] is_rep($K$, maps, row, result)
@call getClass 0 after lemma_rep($K$, maps, row, result);

@fn panda::algorithm::classes(rows, maps, tag) key "classes<panda::BigInteger, panda::tag::$T$>(std::set"
@requires exists|n: int| #[trigger] rows_of(rows, n) && are_maps(maps, n)
@ensures [one representative for every class that a row belongs to] reduces($K$, maps, result, old(rows))
@ensures [no representative twice, if the orbits partition the rows] symmetric($K$, maps, old(rows)) ==> result.no_duplicates()
@entry ghost N = choose|n: int| #[trigger] rows_of(rows, n) && are_maps(maps, n); ghost SRC = Seq::<Seq<int>>::empty();
@loop 0
@before lemma_reducing_init($K$, maps, rows);
@invariant [representatives so far] reducing($K$, maps, classes, SRC, old(rows), rows)
@decreases rows.len()
@start axiom_set_enum(rows); assert(rows.len() > 0) by { if rows.len() == 0 { assert(rows =~= Set::<Seq<int>>::empty()); } } lemma_reducing_in($K$, maps, classes, SRC, old(rows), rows); assert(forall|q: int| 0 <= q < set_enum(rows).len() ==> set_enum(rows).contains(#[trigger] set_enum(rows)[q]));
@call getClass 0 after ghost C0 = classes; ghost S0 = SRC; ghost R = choose|r: Seq<int>| rows.contains(r) && #[trigger] is_class($K$, maps, r, result); lemma_rep($K$, maps, R, result); SRC = SRC.push(R);
@after lemma_reducing_end($K$, maps, classes, SRC, old(rows), rows);
@loop 1
@invariant [members removed so far] removing(rows, pre(rows), set_enum(row_class), $k)
@end lemma_removing_step(start(rows), pre(rows), set_enum(row_class), $k - 1, rows);
@after lemma_reducing_step($K$, maps, C0, S0, old(rows), pre(rows), R, row_class, classes[classes.len() - 1], rows); assert(classes =~= C0.push(classes[classes.len() - 1]));

@fn panda::algorithm::classes(input, maps, tag) key "classes<panda::BigInteger, panda::tag::$T$>(std::vector"
@requires exists|n: int| #[trigger] rows_of(input.to_set(), n) && are_maps(maps, n)
@ensures [one representative for every class that a row belongs to] reduces($K$, maps, result, old(input).to_set())
@ensures [no representative twice, if the orbits partition the rows] symmetric($K$, maps, old(input).to_set()) ==> result.no_duplicates()
@endfor
