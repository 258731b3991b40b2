@unit inequality_ops
@tu src/algorithm_inequality_operations.cpp
@mode Z
@lib prelude gcdlib linalg

@fn scalarProduct(inequality, vertex) key "scalarProduct<panda::BigInteger>"
@requires inequality.len() == vertex.len()
@pure dot(vertex, inequality)

@fn panda::algorithm::rhs(inequality) key "rhs<panda::BigInteger>"
@requires inequality.len() > 0
@pure -inequality[inequality.len() - 1]

@fn panda::algorithm::distance(inequality, vertex) key "distance<panda::BigInteger>"
@requires inequality.len() == vertex.len()
@pure -dot(inequality, vertex)
@return lemma_dot_comm(vertex, inequality);

@fn extremalVertex(vertices, inequality, comparator) key "std::greater<panda::BigInteger>>(const std::vector"
@requires vertices.len() > 0 && rect(vertices, inequality.len())
@ensures [first vertex of maximal distance] exists|i: int| 0 <= i < vertices.len() && result == #[trigger] vertices[i] && (forall|j: int| 0 <= j < vertices.len() ==> dot(inequality, #[trigger] vertices[j]) >= dot(inequality, vertices[i])) && (forall|j: int| 0 <= j < i ==> dot(inequality, #[trigger] vertices[j]) > dot(inequality, vertices[i]))
@loop 0
@invariant [best so far is the first maximum] 0 <= best_vertex < it && 1 <= it <= vertices.len() && extremum == -dot(inequality, vertices[best_vertex]) && (forall|j: int| 0 <= j < it ==> dot(inequality, #[trigger] vertices[j]) >= dot(inequality, vertices[best_vertex])) && (forall|j: int| 0 <= j < best_vertex ==> dot(inequality, #[trigger] vertices[j]) > dot(inequality, vertices[best_vertex]))

@fn extremalVertex(vertices, inequality, comparator) key "std::less<panda::BigInteger>>(const std::vector"
@requires vertices.len() > 0 && rect(vertices, inequality.len())
@ensures [first vertex of minimal distance] exists|i: int| 0 <= i < vertices.len() && result == #[trigger] vertices[i] && (forall|j: int| 0 <= j < vertices.len() ==> dot(inequality, #[trigger] vertices[j]) <= dot(inequality, vertices[i])) && (forall|j: int| 0 <= j < i ==> dot(inequality, #[trigger] vertices[j]) < dot(inequality, vertices[i]))
@loop 0
@invariant [best so far is the first minimum] 0 <= best_vertex < it && 1 <= it <= vertices.len() && extremum == -dot(inequality, vertices[best_vertex]) && (forall|j: int| 0 <= j < it ==> dot(inequality, #[trigger] vertices[j]) <= dot(inequality, vertices[best_vertex])) && (forall|j: int| 0 <= j < best_vertex ==> dot(inequality, #[trigger] vertices[j]) < dot(inequality, vertices[best_vertex]))

@fn panda::algorithm::furthestVertex(vertices, inequality) key "furthestVertex<panda::BigInteger>"
@requires vertices.len() > 0 && rect(vertices, inequality.len())
@ensures [first vertex of maximal distance] exists|i: int| 0 <= i < vertices.len() && result == #[trigger] vertices[i] && (forall|j: int| 0 <= j < vertices.len() ==> dot(inequality, #[trigger] vertices[j]) >= dot(inequality, vertices[i])) && (forall|j: int| 0 <= j < i ==> dot(inequality, #[trigger] vertices[j]) > dot(inequality, vertices[i]))

@fn panda::algorithm::nearestVertex(vertices, inequality) key "nearestVertex<panda::BigInteger>"
@requires vertices.len() > 0 && rect(vertices, inequality.len())
@ensures [first vertex of minimal distance] exists|i: int| 0 <= i < vertices.len() && result == #[trigger] vertices[i] && (forall|j: int| 0 <= j < vertices.len() ==> dot(inequality, #[trigger] vertices[j]) <= dot(inequality, vertices[i])) && (forall|j: int| 0 <= j < i ==> dot(inequality, #[trigger] vertices[j]) < dot(inequality, vertices[i]))
