@unit rotation
@tu src/algorithm_rotation.cpp
@mode Z
@lib matrix span sorting gauss eqs dim bitset fme maps sets classes rotation
@import integer_ops row_ops inequality_ops fme classes

@fn verticesWithZeroDistance(vertices, facet) key "verticesWithZeroDistance<panda::BigInteger>"
@requires rect(vertices, facet.len())
@ensures [exactly the vertices on the facet] on_facet(result, vertices, facet)

@fn getRidges(vertices, facet) key "getRidges<panda::BigInteger>"
@requires rect(vertices, facet.len()) && face_nonzero(vertices, facet)
@ensures [every row is a ridge] forall|k: int| 0 <= k < result.len() ==> is_ridge(#[trigger] result[k], vertices, facet)
@call fourierMotzkinElimination 0 before lemma_on_facet(vertices_on_facet, vertices, facet);
@call fourierMotzkinElimination 0 after assert forall|k: int| 0 <= k < result.len() implies is_ridge(#[trigger] result[k], vertices, facet) by { lemma_is_ridge(result[k], vertices_on_facet, vertices, facet); }

@fn rotate(vertices, vertex, facet, ridge) key "rotate<panda::BigInteger>"
@requires rect(vertices, facet.len()) && valid_row(facet, vertices) && vertices.contains(vertex) && dot(facet, vertex) < 0 && is_ridge(ridge, vertices, facet)
@ensures [valid, primitive, tight exactly on the ridge and at a vertex off the facet] neighbour(result, old(ridge), vertices, facet)
@opt nodec
@entry ghost PV = vertex; assert(agrees(ridge, ridge, vertices, facet));
@loop 0
@invariant [the violated vertex lies off the facet, signs on the facet are kept] vertices.contains(vertex) && d_f == -dot(facet, vertex) && d_r == -dot(ridge, vertex) && d_f > 0 && ridge.len() == facet.len() && agrees(ridge, old(ridge), vertices, facet)
@call gcd 1 before lemma_divides_div(gcd_spec(DF, DR), DF); lemma_divides_div(gcd_spec(DF, DR), DR); assert(d_f > 0) by (nonlinear_arith) requires d_f * gcd_spec(DF, DR) == DF, DF > 0, gcd_spec(DF, DR) > 0; lemma_rotate_step(vertices, PV, facet, old(ridge), R0, gcd_spec(DF, DR), d_f, d_r); assert(ridge =~= vsub(vscale(R0, d_f), vscale(facet, d_r))); lemma_row_gcd(ridge);
@call nearestVertex 0 before assert(ridge == primitive(vsub(vscale(R0, d_f), vscale(facet, d_r)))); assert(agrees(ridge, old(ridge), vertices, facet)); assert(row_gcd(ridge) == 1);
@call nearestVertex 0 after lemma_nearest(result, PV, ridge, old(ridge), vertices, facet);
@loop 0
@after assert(neighbour(ridge, old(ridge), vertices, facet));
@start ghost R0 = ridge; ghost DF = d_f; ghost DR = d_r; PV = vertex; lemma_gcd(d_f, d_r); assert(vertex.len() == facet.len()) by { let i = choose|i: int| 0 <= i < vertices.len() && vertices[i] == vertex; assert(vertices[i].len() == facet.len()); }

@foreach T K in facet|0 vertex|1
@fn panda::algorithm::rotation(matrix, input, maps, tag) key "rotation<panda::BigInteger, panda::tag::$T$>"
@requires rect(matrix, input.len()) && valid_row(input, matrix) && off_facet(matrix, input) && face_nonzero(matrix, input) && are_maps(maps, input.len() as int)
@ensures [representatives of neighbours] reduces_neighbours($K$, maps, result, matrix, input)
@call furthestVertex 0 after lemma_furthest(result, matrix, input);
@loop 0
@invariant [rotated so far] all_rotate(output, matrix, input)
@call rotate 0 before assert(is_ridge(ridge, matrix, input));
@call rotate 0 after assert(neighbour(result, ridge, matrix, input)); assert(rotates(result, matrix, input));
@call classes 0 before lemma_all_rotate($K$, output, matrix, input, maps);
@return assert(reduces_neighbours($K$, maps, result, matrix, input));
@endfor
