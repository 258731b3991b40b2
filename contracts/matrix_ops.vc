@unit matrix_ops
@tu src/algorithm_matrix_operations.cpp
@mode Z
@lib matrix
@import row_ops

@fn operator*(matrix, vector) key "operator*<panda::BigInteger>(const std::vector<std::vector<panda::BigInteger"
@requires rect(matrix, vector.len())
@ensures [entry i is the scalar product with row i] result.len() == matrix.len() && forall|i: int| 0 <= i < matrix.len() ==> #[trigger] result[i] == dot(matrix[i], vector)
@loop 0
@invariant [products so far] result.len() == matrix.len() && i <= matrix.len() && forall|p: int| 0 <= p < i ==> #[trigger] result[p] == dot(matrix[p], vector)

@fn panda::algorithm::transpose(matrix) key "transpose<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len())
@ensures [shape] result.len() == matrix[0].len() && rect(result, matrix.len())
@ensures [entry (i, j) moves to (j, i)] forall|i: int, j: int| 0 <= i < matrix.len() && 0 <= j < matrix[0].len() ==> #[trigger] result[j][i] == matrix[i][j]
@loop 0
@invariant [shape] i <= matrix[0].len() && result.len() == matrix[0].len() && rect(result, matrix.len())
@invariant [columns so far] forall|p: int, q: int| 0 <= p < matrix.len() && 0 <= q < i ==> #[trigger] result[q][p] == matrix[p][q]
@loop 1
@invariant [shape] j <= matrix.len() && result.len() == matrix[0].len() && rect(result, matrix.len()) && i < matrix[0].len()
@invariant [columns so far] forall|p: int, q: int| 0 <= p < matrix.len() && 0 <= q < i ==> #[trigger] result[q][p] == matrix[p][q]
@invariant [column i so far] forall|p: int| 0 <= p < j ==> #[trigger] result[i as int][p] == matrix[p][i as int]

@fn panda::algorithm::appendNegativeIdentityMatrix(matrix) key "appendNegativeIdentityMatrix<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len())
@ensures [rows kept, one row added per column] matrix.len() == old(matrix).len() + old(matrix)[0].len() && matrix.take(old(matrix).len() as int) =~= old(matrix)
@ensures [negated unit rows] forall|j: int| 0 <= j < old(matrix)[0].len() ==> #[trigger] matrix[old(matrix).len() + j] =~= neg_unit(old(matrix)[0].len() as int, j)
@loop 0
@invariant [rows kept] i <= dim && dim == old(matrix)[0].len() && matrix.len() == old(matrix).len() + i && forall|p: int| 0 <= p < old(matrix).len() ==> #[trigger] matrix[p] == old(matrix)[p]
@invariant [unit rows so far] forall|p: int| old(matrix).len() <= p < matrix.len() ==> #[trigger] matrix[p] == neg_unit(dim as int, p - old(matrix).len())
@end assert(matrix[matrix.len() - 1] =~= neg_unit(dim as int, i as int - 1));
