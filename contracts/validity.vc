@unit validity
@tu src/input_validity.cpp
@mode Z
@native int
@lib validity
@import inequality_ops@int gauss@int map_apply@int

@fn inequalityIsValid(matrix, inequality, dimension)
@requires rect(matrix, inequality.len())
@ensures [valid: satisfied by every row and tight on a set of rows of one dimension less] result == facet(matrix, inequality, dimension as int)
@loop 0
@before assert(keep(matrix.take(0), tight(inequality)) =~= Seq::<Seq<int>>::empty());
@invariant [satisfied so far, tight rows so far] active == keep(matrix.take($k), tight(inequality)) && forall|i: int| 0 <= i < $k ==> dot(inequality, #[trigger] matrix[i]) <= 0
@end lemma_keep_step(matrix, inequality, $k - 1);
@after lemma_keep_all(matrix, inequality); lemma_keep_rect(matrix, tight(inequality), inequality.len());

@fn checkValidityOfInequality(matrix, inequality, dimension)
@requires rect(matrix, inequality.len())
@throws
@ensures [accepted only if valid] facet(matrix, inequality, dimension as int)
@exc [raises only if not valid] !facet(matrix, inequality, dimension as int)
@loop 0
@before assert(keep(matrix.take(0), tight(inequality)) =~= Seq::<Seq<int>>::empty());
@invariant [satisfied so far, tight rows so far] active == keep(matrix.take($k), tight(inequality)) && forall|i: int| 0 <= i < $k ==> dot(inequality, #[trigger] matrix[i]) <= 0
@end lemma_keep_step(matrix, inequality, $k - 1);
@after lemma_keep_all(matrix, inequality); lemma_keep_rect(matrix, tight(inequality), inequality.len());

@fn checkValidityOfVertex(matrix, vertex, dimension)
@requires rect(matrix, vertex.len())
@throws
@ensures [accepted only if extremal] facet(matrix, vertex, dimension as int)
@exc [raises only if not extremal] !facet(matrix, vertex, dimension as int)
@loop 0
@before assert(keep(matrix.take(0), tight(vertex)) =~= Seq::<Seq<int>>::empty());
@invariant [satisfied so far, tight rows so far] active == keep(matrix.take($k), tight(vertex)) && forall|i: int| 0 <= i < $k ==> dot(vertex, #[trigger] matrix[i]) <= 0
@start lemma_dot_comm(matrix[$k], vertex);
@end lemma_keep_step(matrix, vertex, $k - 1);
@after lemma_keep_all(matrix, vertex); lemma_keep_rect(matrix, tight(vertex), vertex.len());

@foreach F P R in checkValidityOfInequalities|inequalities|checkValidityOfInequality checkValidityOfVertices|vertices|checkValidityOfVertex
@fn panda::input::implementation::$F$(matrix, $P$)
@requires $P$.len() > 0 ==> matrix.len() > 0 && rect(matrix, matrix[0].len()) && rect($P$, matrix[0].len())
@throws
@ensures [accepted only if every one is valid] all_facets(matrix, $P$)
@exc [raises only if some one is not valid] !all_facets(matrix, $P$)
@loop 0
@before lemma_rank(dimension as int, matrix, matrix[0].len());
@invariant [valid so far] forall|i: int| 0 <= i < $k ==> facet(matrix, #[trigger] $P$[i], rank(matrix, matrix[0].len()))
@endfor

@fn panda::input::implementation::filterInvalidInequalities(matrix, inequalities)
@requires inequalities.len() > 0 ==> matrix.len() > 0 && rect(matrix, matrix[0].len()) && rect(inequalities, matrix[0].len())
@ensures [exactly the valid ones remain, in order] inequalities == keep(old(inequalities), valid_in(matrix))
@loop 0
@before assert(inequalities.take(0) =~= keep(inequalities.take(0), valid_in(matrix))); assert(inequalities.skip(0) =~= inequalities);
@invariant [kept so far] filtering(inequalities, old(inequalities), it, valid_in(matrix))
@start assert(inequalities.skip(it)[0] == old(inequalities)[old(inequalities).len() - inequalities.len() + it]);
@end if valid_in(matrix)(start(inequalities)[start(it)]) { lemma_filtering_keep(start(inequalities), old(inequalities), start(it), valid_in(matrix)); } else { lemma_filtering_drop(start(inequalities), old(inequalities), start(it), valid_in(matrix)); }
@after assert(inequalities.take(it) =~= inequalities); assert(old(inequalities).take(old(inequalities).len() as int) =~= old(inequalities));

@fn panda::input::implementation::filterInvalidVertices(matrix, vertices)
@requires vertices.len() > 0 ==> matrix.len() > 0 && rect(matrix, matrix[0].len()) && rect(vertices, matrix[0].len())
@ensures [exactly the valid ones remain, in order] vertices == keep(old(vertices), valid_in(matrix))


@foreach F G K T in checkValidityInequalities|checkValidityOfInequalityClasses|0|inequalities checkValidityVertices|checkValidityOfVertexClasses|1|vertices
@fn $F$(matrix, map)
@requires matrix.len() > 0 ==> is_map(map, matrix[0].len() as int) && rect(matrix, matrix[0].len())
@throws
@ensures [accepted only if the map permutes the rows] permutes($K$, map, matrix)
@exc [raises only if the map does not permute the rows] !permutes($K$, map, matrix)
@loop 0
@invariant [positions of the images so far] i <= matrix.len() && positions($K$, map, matrix, indices, i as int)
@call apply 0 after assert(result == image_of($K$, map, matrix[i as int]));
@after lemma_counts($K$, map, matrix, indices);
@loop 1
@invariant [counts up so far] indices.len() == matrix.len() && i <= indices.len() && forall|q: int| 0 <= q < i ==> #[trigger] indices[q] == q

@fn panda::input::implementation::$G$($T$, maps)
@requires $T$.len() > 0 && maps.len() > 0 ==> are_maps(maps, $T$[0].len() as int) && rect($T$, $T$[0].len())
@throws
@ensures [accepted only if every map permutes the rows] all_permute($K$, maps, $T$)
@exc [raises only if some map does not permute the rows] !all_permute($K$, maps, $T$)
@loop 0
@invariant [maps so far] forall|q: int| 0 <= q < $k ==> permutes($K$, #[trigger] maps[q], $T$)
@endfor
