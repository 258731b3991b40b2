@unit gauss
@tu src/algorithm_matrix_operations.cpp
@mode Z
@lib matrix span sorting gauss eqs dim rank
@import row_ops matrix_ops integer_ops

@fn normalizeColumn(matrix, column) key "normalizeColumn<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len()) && column < matrix[0].len()
@ensures [column divided by its gcd, the others unchanged] setcol(matrix, old(matrix), column as int, primitive(colv(old(matrix), column as int))) && colv(matrix, column as int) =~= primitive(colv(old(matrix), column as int))
@loop 0
@invariant [gcd of the column so far] j <= matrix.len() && gcd_val == row_gcd(colv(matrix, column as int).take(j as int))
@before lemma_row_gcd(colv(matrix, column as int).take(0));
@end assert(colv(matrix, column as int).take(j as int).drop_last() =~= colv(matrix, column as int).take(j - 1)); lemma_gcd(matrix[j - 1][column as int], row_gcd(colv(matrix, column as int).take(j - 1)));
@after assert(colv(matrix, column as int).take(j as int) =~= colv(matrix, column as int));
@loop 1
@invariant [column divided so far] j <= matrix.len() && forall|i: int, c: int| 0 <= i < matrix.len() && 0 <= c < matrix[i].len() ==> #[trigger] matrix[i][c] == (if c == column && i < j { tdiv(old(matrix)[i][c], gcd_val) } else { old(matrix)[i][c] })

@fn eliminateColumn(matrix, row, col, ecol) key "eliminateColumn<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len()) && col < matrix[0].len() && ecol < matrix[0].len() && row < matrix.len() && col != ecol
@ensures [combination of the two columns that vanishes in the pivot row] setcol(matrix, old(matrix), ecol as int, elimcol(old(matrix), row as int, col as int, ecol as int)) && colv(matrix, ecol as int) =~= elimcol(old(matrix), row as int, col as int, ecol as int)
@loop 0
@invariant [combined so far] j <= matrix.len() && forall|i: int, c: int| 0 <= i < matrix.len() && 0 <= c < matrix[i].len() ==> #[trigger] matrix[i][c] == (if c == ecol && i < j { old(matrix)[i][c] * a + old(matrix)[i][col as int] * b } else { old(matrix)[i][c] })

@fn eliminateColumns(matrix, row, col) key "eliminateColumns<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len()) && col < matrix[0].len() && row < matrix.len()
@ensures [every other column eliminated] eliminated(matrix, old(matrix), row as int, col as int)
@loop 0
@invariant [shape] i <= col_size && matrix.len() == old(matrix).len() && (forall|q: int| 0 <= q < matrix.len() ==> (#[trigger] matrix[q]).len() == old(matrix)[q].len())
@invariant [columns so far] forall|q: int, c: int| 0 <= q < matrix.len() && 0 <= c < matrix[q].len() ==> #[trigger] matrix[q][c] == (if c < i { ecolv(old(matrix), row as int, col as int, c)[q] } else { old(matrix)[q][c] })
@start assert(matrix[row as int].len() == col_size); assert(colv(matrix, i as int) =~= colv(old(matrix), i as int)); assert(colv(matrix, col as int) =~= colv(old(matrix), col as int)) by { assert(colv(old(matrix), col as int) == ecolv(old(matrix), row as int, col as int, col as int)); assert forall|q: int| 0 <= q < matrix.len() implies #[trigger] matrix[q][col as int] == old(matrix)[q][col as int] by { assert(matrix[q].len() == col_size); } } assert(matrix[row as int][col as int] == old(matrix)[row as int][col as int]) by { assert(colv(matrix, col as int)[row as int] == colv(old(matrix), col as int)[row as int]); } assert(elimcol(matrix, row as int, col as int, i as int) =~= elimcol(old(matrix), row as int, col as int, i as int));

@fn pivot(matrix, iteration, used_columns) key "pivot<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len()) && iteration < matrix.len() && seq_sorted(used_columns)
@ensures [matrix unchanged] matrix == old(matrix)
@ensures [rows before the pivot vanish on unused columns] iteration <= result.0 <= matrix.len() && forall|i: int, c: int| iteration <= i < result.0 && 0 <= c < matrix[0].len() && !old(used_columns).contains(c as u64) ==> #[trigger] matrix[i][c] == 0
@ensures [the pivot is a non-zero entry of an unused column] result.0 < matrix.len() ==> result.1 < matrix[0].len() && matrix[result.0 as int][result.1 as int] != 0 && !old(used_columns).contains(result.1)
@ensures [no column without pivot] result.0 == matrix.len() ==> result.1 == matrix[0].len()
@ensures [column recorded] seq_sorted(used_columns) && (forall|x: u64| #[trigger] used_columns.contains(x) <==> old(used_columns).contains(x) || x == result.1)
@loop 0
@invariant [rows without pivot] iteration <= row <= matrix.len() && col == col_size && forall|i: int, c: int| iteration <= i < row && 0 <= c < matrix[0].len() && !used_columns.contains(c as u64) ==> #[trigger] matrix[i][c] == 0
@loop 1
@invariant [row without pivot so far] col <= col_size && forall|c: int| 0 <= c < col && !used_columns.contains(c as u64) ==> #[trigger] matrix[row as int][c] == 0
@return assert forall|x: u64| #[trigger] used_columns.contains(x) implies old(used_columns).contains(x) || x == col by { assert(old(used_columns).push(col).contains(x)); let i = choose|i: int| 0 <= i < old(used_columns).push(col).len() && old(used_columns).push(col)[i] == x; if i < old(used_columns).len() { assert(old(used_columns)[i] == x); } } assert forall|x: u64| old(used_columns).contains(x) || x == col implies #[trigger] used_columns.contains(x) by { if old(used_columns).contains(x) { let i = choose|i: int| 0 <= i < old(used_columns).len() && old(used_columns)[i] == x; assert(old(used_columns).push(col)[i] == x); } else { assert(old(used_columns).push(col)[old(used_columns).len() as int] == x); } assert(old(used_columns).push(col).contains(x)); }

@fn panda::algorithm::gaussianElimination(matrix) key "gaussianElimination<panda::BigInteger>"
@requires matrix.len() > 0 && matrix[0].len() > 0 && matrix.len() >= matrix[0].len() && rect(matrix, matrix[0].len()) && starts_as(matrix, top(matrix), matrix[0].len() as int)
@ensures [elimination finished] gfin(top(old(matrix)), old(matrix)[0].len() as int, matrix, result.1, result.0)
@entry lemma_ginit(top(matrix), matrix[0].len() as int, matrix);
@loop 0
@invariant [pivots so far] row <= row_size && matrix.len() == row_size && seq_sorted(used_columns) && ginv(top(old(matrix)), col_size as int, matrix, used_set(used_columns), row as int) && tinv(matrix, used_set(used_columns), row as int, t as int, T, L)
@before assert(used_set(used_columns) =~= ISet::<int>::empty()); lemma_tinit(matrix, t as int);
@start lemma_gshape(top(old(matrix)), col_size as int, matrix, used_set(used_columns), row as int);
@end lemma_gshape(top(old(matrix)), col_size as int, start(matrix), used_set(start(used_columns)), start(row) as int); lemma_gstep(top(old(matrix)), col_size as int, start(matrix), used_set(start(used_columns)), start(row) as int, row - 1, col as int, matrix); assert(used_set(used_columns) =~= used_set(start(used_columns)).insert(col as int)); lemma_tstep(start(matrix), matrix, used_set(start(used_columns)), start(row) as int, row - 1, t as int, col_size as int, col as int, start(T), start(L), T, L);
@loop 1
@before assert forall|u: ISet<int>, r: int| #[trigger] ginv(top(old(matrix)), col_size as int, matrix, u, r) && tinv(matrix, u, r, t as int, T, L) && (forall|i: int, c: int| r <= i < matrix.len() && 0 <= c < col_size && !u.contains(c) ==> #[trigger] matrix[i][c] == 0) implies ginv(top(old(matrix)), col_size as int, matrix, columns_upto(col_size as int), row_size as int) && tinv(matrix, columns_upto(col_size as int), row_size as int, t as int, T, L) by { lemma_gdone_t(top(old(matrix)), col_size as int, matrix, u, r, T, L); }
@start lemma_gshape(top(old(matrix)), col_size as int, matrix, columns_upto(col_size as int), row_size as int); assert(columns_upto(col_size as int).contains(col as int));
@end let s_ = start(matrix); let c_ = col - 1; lemma_gshape(top(old(matrix)), col_size as int, s_, columns_upto(col_size as int), row_size as int); if s_[fr(s_, c_)][c_] < 0 { assert(flipped(matrix, s_, c_, col_size as int)); lemma_flip(top(old(matrix)), col_size as int, s_, matrix, columns_upto(col_size as int), row_size as int, c_); lemma_tkeep(s_, matrix, columns_upto(col_size as int), row_size as int, t as int, T, L); assert forall|c: int| 0 <= c < col implies matrix[#[trigger] fr(matrix, c)][c] > 0 by { assert(columns_upto(col_size as int).contains(c)); assert(matrix[fr(matrix, c)][c] == (if c == c_ { -s_[fr(s_, c)][c] } else { s_[fr(s_, c)][c] })); assert(fr(s_, c) == fr(matrix, c)); } }
@invariant [signs so far] ginv(top(old(matrix)), col_size as int, matrix, columns_upto(col_size as int), row_size as int) && tinv(matrix, columns_upto(col_size as int), row_size as int, t as int, T, L) && col <= col_size && forall|c: int| 0 <= c < col ==> matrix[#[trigger] fr(matrix, c)][c] > 0
@loop 2
@invariant [flipped so far] row <= row_size && forall|i: int, c: int| 0 <= i < matrix.len() && 0 <= c < col_size ==> #[trigger] matrix[i][c] == (if c == col && i < row { -pre(matrix)[i][c] } else { pre(matrix)[i][c] })

@fn panda::algorithm::extractEquations(matrix, indices) key "BigInteger>>>> &,const std"
@requires matrix.len() > 0 && descending(indices, matrix.len() as int)
@ensures [the indexed rows, in order] result.len() == indices.len() && forall|j: int| 0 <= j < indices.len() ==> #[trigger] result[j] == old(matrix)[indices[j] as int]
@ensures [the other rows stay] remaining(matrix, old(matrix), indices)
@entry assert(permuted(matrix, matrix, indices, 0, Seq::new(matrix.len(), |p: int| p)));
@loop 0
@invariant [swapped to the end so far] i <= indices.len() && matrix.len() == old(matrix).len() && is_permuted(matrix, old(matrix), indices, i as int)
@start lemma_descending(indices, matrix.len() as int, i as int);
@end lemma_permstep(start(matrix), matrix, old(matrix), indices, i - 1);
@after lemma_permdone(matrix, old(matrix), indices);

@fn panda::algorithm::extractEquations(matrix) key "BigInteger>>>>)"
@requires matrix.len() > 0 && matrix[0].len() > 0 && rect(matrix, matrix[0].len())
@ensures [equations satisfied by every row, primitive, in reduced echelon form, independent] equations_of(result, old(matrix), old(matrix)[0].len() as int)
@ensures [as many as the dimension of the solution space] is_rank(old(matrix)[0].len() - result.len(), old(matrix), old(matrix)[0].len())
@call gaussianElimination 0 before lemma_starts(matrix, old(matrix));
@call gaussianElimination 0 after ghost GM = matrix; ghost LC = result.0; ghost TC = result.1; lemma_gcols(old(matrix), old(matrix)[0].len() as int, GM, TC, LC); assert(forall|i: int| 0 <= i < GM.len() ==> (#[trigger] GM[i]).len() == old(matrix)[0].len());
@call transpose 0 before assert(matrix =~= GM.skip(old(matrix).len() as int)); assert(matrix[0] == GM[old(matrix).len() as int]); assert(rect(matrix, old(matrix)[0].len()));
@call extractEquations 0 before lemma_indices(old(matrix), old(matrix)[0].len() as int, GM, TC, LC, equation_indices);
@call extractEquations 0 after ghost RES = result;
@return assert forall|k: int| 0 <= k < equation_indices.len() implies #[trigger] RES[k] =~= xc(GM, old(matrix).len() as int, old(matrix)[0].len() as int, equation_indices[k] as int) by { assert(0 <= equation_indices[k] < old(matrix)[0].len()); } lemma_equations(old(matrix), old(matrix)[0].len() as int, GM, TC, LC, equation_indices, RES); lemma_count(old(matrix), old(matrix)[0].len() as int, GM, TC, LC); lemma_trows_basis(old(matrix), old(matrix)[0].len() as int, GM, TC, LC); assert(trows(old(matrix), TC).len() == old(matrix)[0].len() - RES.len());

@fn panda::algorithm::dimension(matrix) key "BigInteger>>>>)"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len())
@ensures [the rank] is_rank(result as int, old(matrix), old(matrix)[0].len())
@ensures [which is unique] result == rank(old(matrix), old(matrix)[0].len()) && result <= old(matrix).len()
@return lemma_rank(pivot_columns.len() as int, old(matrix), old(matrix)[0].len());
@entry lemma_dstart(matrix, matrix[0].len() as int);
@loop 0
@invariant [independent rows so far span all rows so far] pivot_columns.len() == i && i <= matrix.len() && dinv(old(matrix), old(matrix)[0].len() as int, matrix, pivot_columns)
@start lemma_dshape(old(matrix), old(matrix)[0].len() as int, matrix, pivot_columns); lemma_estart(old(matrix), old(matrix)[0].len() as int, matrix, pivot_columns);
@after lemma_dend(old(matrix), old(matrix)[0].len() as int, matrix, pivot_columns);
@loop 1
@invariant [row eliminated so far] j <= i && i < matrix.len() && matrix =~= pre(matrix).update(i as int, matrix[i as int]) && einv(old(matrix), old(matrix)[0].len() as int, pre(matrix), pivot_columns, j as int, matrix[i as int]) && matrix[i as int].len() == old(matrix)[0].len()
@start assert(0 <= pivot_columns[j as int] < old(matrix)[0].len());
@end if start(matrix)[i as int][pivot_columns[j - 1] as int] != 0 { lemma_estep(old(matrix), old(matrix)[0].len() as int, pre(matrix), pivot_columns, j - 1, start(matrix)[i as int], matrix[i as int]); } else { lemma_eskip(old(matrix), old(matrix)[0].len() as int, pre(matrix), pivot_columns, j - 1, matrix[i as int]); }
@after if all_zero(matrix[i as int]) { lemma_ezero(old(matrix), old(matrix)[0].len() as int, pre(matrix), pivot_columns, matrix[i as int]); assert(matrix.remove(i as int) =~= pre(matrix).remove(i as int)); } assert forall|p: u64| p < old(matrix)[0].len() && matrix[i as int][p as int] != 0 implies dinv(old(matrix), old(matrix)[0].len() as int, matrix, #[trigger] pivot_columns.push(p)) by { lemma_epush(old(matrix), old(matrix)[0].len() as int, pre(matrix), pivot_columns, matrix[i as int], p); } assert(all_zero(matrix[i as int]) <==> forall|c: int| 0 <= c < matrix[i as int].len() ==> #[trigger] matrix[i as int][c] == 0);
