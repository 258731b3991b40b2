@unit fme
@tu src/algorithm_fourier_motzkin_elimination.cpp
@mode Z
@lib matrix span sorting gauss eqs dim bitset fme
@import row_ops matrix_ops integer_ops gauss bitset_variable bitset_fixed

@fn eliminateZeroColumns(matrix, vertices) key "eliminateZeroColumns<panda::BigInteger>"
@requires matrix.len() > 0 && rect(matrix, matrix[0].len()) && rect(vertices, matrix[0].len())
@ensures [the removed columns in descending order] descending(result, old(matrix)[0].len() as int)
@ensures [rows without the removed columns, whose entries are all zero] matrix.len() == old(matrix).len() && forall|i: int| 0 <= i < matrix.len() ==> #[trigger] matrix[i] == strip(old(matrix)[i], result) && zero_at(old(matrix)[i], result)
@ensures [vertices without the removed columns] vertices.len() == old(vertices).len() && forall|i: int| 0 <= i < vertices.len() ==> #[trigger] vertices[i] == strip(old(vertices)[i], result)
@ensures [every zero column is removed] forall|c: int| 0 <= c < old(matrix)[0].len() && #[trigger] zero_col(old(matrix), c) ==> result.contains(c as u64)
@loop 0
@invariant [columns so far] col <= old(matrix)[0].len() && descending(zero_columns, old(matrix)[0].len() as int) && (forall|k: int| 0 <= k < zero_columns.len() ==> #[trigger] zero_columns[k] >= col) && matrix.len() == old(matrix).len() && vertices.len() == old(vertices).len()
@invariant [zero columns of the remaining system are known] forall|c: int| col <= c < old(matrix)[0].len() && #[trigger] zero_col(old(matrix), c) ==> zero_columns.contains(c as u64)
@invariant [rows] forall|i: int| 0 <= i < matrix.len() ==> #[trigger] matrix[i] == strip(old(matrix)[i], zero_columns) && zero_at(old(matrix)[i], zero_columns)
@invariant [vertices] forall|i: int| 0 <= i < vertices.len() ==> #[trigger] vertices[i] == strip(old(vertices)[i], zero_columns)
@start lemma_above(zero_columns, old(matrix)[0].len() as int, col as int); assert forall|i: int| 0 <= i < matrix.len() implies (#[trigger] matrix[i]).len() == old(matrix)[0].len() - zero_columns.len() && matrix[i].len() >= col && (col > 0 ==> matrix[i][col - 1] == old(matrix)[i][col - 1]) by { assert(old(matrix)[i].len() == old(matrix)[0].len()); lemma_strip(old(matrix)[i], zero_columns); if col > 0 { lemma_strip_at(old(matrix)[i], zero_columns, col - 1); } } assert forall|i: int| 0 <= i < vertices.len() implies (#[trigger] vertices[i]).len() == old(matrix)[0].len() - zero_columns.len() && vertices[i].len() >= col by { assert(old(vertices)[i].len() == old(matrix)[0].len()); lemma_strip(old(vertices)[i], zero_columns); }
@end assert(zero_columns != start(zero_columns) ==> zero_columns =~= start(zero_columns).push(col)); assert(zero_columns != start(zero_columns) ==> zero_columns.drop_last() =~= start(zero_columns)); assert(zero_columns == start(zero_columns) ==> !zero_col(old(matrix), col as int)); assert forall|c: int| col <= c < old(matrix)[0].len() && #[trigger] zero_col(old(matrix), c) implies zero_columns.contains(c as u64) by { if c == col { assert(zero_columns[zero_columns.len() - 1] == col); } else { assert(start(zero_columns).contains(c as u64)); let k = choose|k: int| 0 <= k < start(zero_columns).len() && start(zero_columns)[k] == c as u64; assert(zero_columns[k] == c as u64); } } assert forall|i: int| 0 <= i < matrix.len() implies #[trigger] matrix[i] == strip(old(matrix)[i], zero_columns) && zero_at(old(matrix)[i], zero_columns) by { }
@loop 1
@invariant [removed so far] matrix.len() == pre(matrix).len() && forall|i: int| 0 <= i < matrix.len() ==> #[trigger] matrix[i] == (if i < $k { pre(matrix)[i].remove(col as int) } else { pre(matrix)[i] })
@loop 2
@invariant [removed so far] vertices.len() == pre(vertices).len() && forall|i: int| 0 <= i < vertices.len() ==> #[trigger] vertices[i] == (if i < $k { pre(vertices)[i].remove(col as int) } else { pre(vertices)[i] })

@fn reinsertZeroColumns(matrix, zero_columns) key "reinsertZeroColumns<panda::BigInteger>"
@requires exists|n: int| #[trigger] descending(zero_columns, n) && forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() == n - zero_columns.len()
@ensures [the columns are back, with entries zero] matrix.len() == old(matrix).len() && forall|i: int| 0 <= i < matrix.len() ==> #[trigger] matrix[i] == exp_row(old(matrix)[i], zero_columns)
@entry ghost N_ = choose|n: int| #[trigger] descending(zero_columns, n) && forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() == n - zero_columns.len(); assert(zero_columns.take(zero_columns.len() as int) =~= zero_columns); assert(matrix.len() > 0 ==> matrix[0].len() == N_ - zero_columns.len());
@loop 0
@invariant [inserted so far] matrix.len() == old(matrix).len() && forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() == N_ - zero_columns.len() + $k && exp_row(matrix[i], zero_columns.take(zero_columns.len() - $k)) == exp_row(old(matrix)[i], zero_columns)
@start lemma_descending(zero_columns, N_, zero_columns.len() - 1 - $k); assert(forall|i: int| 0 <= i < matrix.len() ==> zero_columns[zero_columns.len() - 1 - $k] <= (#[trigger] matrix[i]).len()); assert(zero_columns.take(zero_columns.len() - $k).drop_last() =~= zero_columns.take(zero_columns.len() - $k - 1));
@after assert(zero_columns.take(0).len() == 0);
@loop 1
@invariant [inserted so far] matrix.len() == pre(matrix).len() && forall|i: int| 0 <= i < matrix.len() ==> #[trigger] matrix[i] == (if i < $k { pre(matrix)[i].insert(col as int, 0int) } else { pre(matrix)[i] })

@fn getIndicesNZP(s) key "getIndicesNZP<panda::BigInteger>("
@ensures [indices by sign] all_neg(result.0, s) && all_nul(result.1, s) && all_pos(result.2, s)
@loop 0
@invariant [so far] j <= s.len() && all_neg(indices.0, s) && all_nul(indices.1, s) && all_pos(indices.2, s)

@fn extractFacets(matrix, vertices, start) key "extractFacets<panda::BigInteger>"
@requires start <= vertices.len() && exists|w: nat| #[trigger] rect(vertices, w) && rect(matrix, w)
@ensures [rows satisfied by the remaining vertices] from_rows(result, matrix) && forall|i: int, j: int| 0 <= i < result.len() && start <= j < vertices.len() ==> dot(#[trigger] result[i], #[trigger] vertices[j]) <= 0
@loop 0
@invariant [so far] from_rows(facets, matrix) && forall|i: int, j: int| 0 <= i < facets.len() && start <= j < vertices.len() ==> dot(#[trigger] facets[i], #[trigger] vertices[j]) <= 0
@end let sub_ = vertices.subrange(start as int, vertices.len() as int); assert forall|i: int, j: int| 0 <= i < facets.len() && start <= j < vertices.len() implies dot(#[trigger] facets[i], #[trigger] vertices[j]) <= 0 by { assert(sub_[j - start] == vertices[j]); }

@fn detectBadRow(matrix) key "detectBadRow<panda::BigInteger>"
@requires forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() > 0
@ensures [rows are only removed] from_rows(matrix, old(matrix))
@loop 0
@invariant [rows are only removed] from_rows(matrix, old(matrix)) && forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() > 0
@decreases matrix.len() + 1 - j
@loop 1
@invariant k <= row.len()

@foreach B S N in BitsetFixedSize<1>|BitsetFixedSize_1|1 BitsetFixedSize<2>|BitsetFixedSize_2|2 BitsetFixedSize<3>|BitsetFixedSize_3|3 BitsetFixedSize<4>|BitsetFixedSize_4|4 BitsetFixedSize<6>|BitsetFixedSize_6|6 BitsetFixedSize<8>|BitsetFixedSize_8|8 BitsetFixedSize<10>|BitsetFixedSize_10|10 BitsetFixedSize<12>|BitsetFixedSize_12|12 BitsetFixedSize<16>|BitsetFixedSize_16|16 BitsetFixedSize<20>|BitsetFixedSize_20|20 BitsetFixedSize<30>|BitsetFixedSize_30|30 BitsetFixedSize<40>|BitsetFixedSize_40|40 BitsetFixedSize<50>|BitsetFixedSize_50|50 BitsetFixedSize<75>|BitsetFixedSize_75|75 BitsetFixedSize<100>|BitsetFixedSize_100|100 BitsetFixedSize<150>|BitsetFixedSize_150|150 BitsetFixedSize<200>|BitsetFixedSize_200|200 BitsetVariableSize|BitsetVariableSize|0
@rust pub open spec fn bits_$S$(r: Seq<$S$>, n: int) -> bool { forall|q: int| 0 <= q < r.len() ==> (#[trigger] r[q]).data.len() == n }
@rust pub open spec fn capof_$S$(r: Seq<$S$>) -> int { if r.len() > 0 { r[0].data.len() as int } else { 0 } }
@rust pub open spec fn pairs_$S$(l: Seq<(u64, u64, $S$)>, s: Seq<int>, n: int) -> bool { forall|q: int| 0 <= q < l.len() ==> (#[trigger] l[q]).0 < s.len() && l[q].1 < s.len() && s[l[q].0 as int] < 0 && s[l[q].1 as int] > 0 && l[q].2.data.len() == n }

@fn countCheck(Rn, Rp, max_count, max) key "countCheck<panda::$B$>"
@requires Rn.data.len() == Rp.data.len() && max >= 1 && words(max) <= Rn.data.len()

@fn containmentCheck(Rn, Rp, max, R, indices_zero) key "containmentCheck<panda::$B$>"
@requires Rn.data.len() == Rp.data.len() && max >= 1 && words(max) <= Rn.data.len() && bits_$S$(R, Rn.data.len() as int) && forall|q: int| 0 <= q < indices_zero.len() ==> (#[trigger] indices_zero[q]) < R.len()

@fn pnrIteration(pnrs, index_n, index_p, u, max) key "pnrIteration<panda::$B$>"
@requires max >= 1 && words(max) <= u.data.len() && forall|q: int| 0 <= q < pnrs.len() ==> (#[trigger] pnrs[q]).2.data.len() == u.data.len()
@ensures [pairs are kept, dropped, or the new one] forall|q: int| 0 <= q < pnrs.len() ==> old(pnrs).contains(#[trigger] pnrs[q]) || pnrs[q] == (index_n, index_p, u)
@loop 0
@invariant [positions] 0 <= it <= pnrs.len() && bit == it - 1 && pnrs == old(pnrs) && (forall|q: int| 0 <= q < removal.len() ==> -1 <= #[trigger] removal[q] < it - 1) && forall|q: int, p: int| 0 <= q < p < removal.len() ==> #[trigger] removal[q] < #[trigger] removal[p]
@loop 1
@invariant [removed so far] (forall|q: int| 0 <= q < pnrs.len() ==> old(pnrs).contains(#[trigger] pnrs[q])) && forall|q: int| 0 <= q < removal.len() - $k ==> #[trigger] removal[q] + 1 < pnrs.len() && removal[q] <= removal_limit

@fn getIndicesNZP(s, R, max) key "getIndicesNZP<panda::BigInteger, panda::$B$>"
@requires s.len() == R.len() && max >= 1 && forall|q: int| 0 <= q < R.len() ==> words(max) <= (#[trigger] R[q]).data.len()
@ensures [indices by sign] all_neg(result.0, s) && all_nul(result.1, s) && all_pos(result.2, s)

@fn updateSystem(matrix, R, i, indices, s, pnrs) key "updateSystem<panda::$B$, panda::BigInteger>"
@requires s.len() == matrix.len() && R.len() == matrix.len() && all_neg(indices.0, s) && all_nul(indices.1, s) && bits_$S$(R, capof_$S$(R)) && pairs_$S$(pnrs, s, capof_$S$(R)) && (R.len() > 0 ==> i < 32 * capof_$S$(R)) && exists|w: nat| #[trigger] rect(matrix, w)
@ensures [kept rows and combinations] proj(result.0, matrix, s)
@ensures [one set per row] result.1.len() == result.0.len() && bits_$S$(result.1, capof_$S$(R)) && (result.1.len() > 0 ==> R.len() > 0)
@loop 0
@invariant [so far] proj(new_matrix, matrix, s) && new_R.len() == new_matrix.len() && (new_R.len() > 0 ==> R.len() > 0) && bits_$S$(new_R, capof_$S$(R))
@end assert(kept_by(new_matrix[new_matrix.len() - 1], matrix, s, index_z as int));
@loop 1
@invariant [so far] proj(new_matrix, matrix, s) && new_R.len() == new_matrix.len() && (new_R.len() > 0 ==> R.len() > 0) && bits_$S$(new_R, capof_$S$(R))
@end assert(kept_by(new_matrix[new_matrix.len() - 1], matrix, s, index_n as int));
@loop 2
@invariant [so far] proj(new_matrix, matrix, s) && new_R.len() == new_matrix.len() && (new_R.len() > 0 ==> R.len() > 0) && bits_$S$(new_R, capof_$S$(R))
@end let n_ = pnrs[$k - 1].0 as int; let p_ = pnrs[$k - 1].1 as int; let l_ = new_matrix[new_matrix.len() - 1]; lemma_combine(matrix[n_], matrix[p_], s[p_], s[n_], l_); let g_ = choose|g: int| #[trigger] comb_of(l_, matrix[n_], matrix[p_], s[p_], s[n_], g); assert(combined(l_, matrix, s, n_, p_, g_));

@fn projection(matrix, R, vertex, index) key "projection<panda::$B$, panda::BigInteger>"
@requires rect(matrix, vertex.len()) && R.len() == matrix.len() && index >= 1 && bits_$S$(R, capof_$S$(R)) && (R.len() > 0 ==> words(index) <= capof_$S$(R) && index < 32 * capof_$S$(R))
@ensures [every row of the new system is an old row the vertex satisfies or a positive combination of a violated and a strictly satisfied one] proj(matrix, old(matrix), prods(old(matrix), vertex))
@ensures [one set per row] R.len() == matrix.len() && bits_$S$(R, capof_$S$(old(R))) && (R.len() > 0 ==> old(R).len() > 0)
@call updateSystem 0 before assert(s =~= prods(matrix, vertex));
@loop 0
@invariant [pairs] pairs_$S$(pnrs, s, capof_$S$(R))
@loop 1
@invariant [pairs] pairs_$S$(pnrs, s, capof_$S$(R))

@fn initializeR(matrix, vertices) key "initializeR<panda::$B$, panda::BigInteger>"
@requires matrix.len() > 0 && matrix.len() <= vertices.len() && (exists|w: nat| #[trigger] rect(vertices, w) && rect(matrix, w)) && vertices.len() <= 32 * capacity($N$, vertices.len() as u64)
@ensures [one set per row] result.len() == matrix.len() && bits_$S$(result, capacity($N$, vertices.len() as u64))
@loop 0
@invariant [so far] R.len() == matrix.len() && bits_$S$(R, capacity($N$, vertices.len() as u64))
@loop 1
@invariant [so far] R.len() == matrix.len() && bits_$S$(R, capacity($N$, vertices.len() as u64))

@fn phaseTwo(matrix, vertices) key "phaseTwo<panda::$B$, panda::BigInteger>"
@requires matrix.len() > 0 && 0 < matrix[0].len() <= matrix.len() <= vertices.len() && rect(vertices, matrix[0].len()) && fm_inv(matrix, vertices, matrix.len() as int, matrix[0].len() as int) && vertices.len() <= 32 * capacity($N$, vertices.len() as u64)
@ensures [no ray is cut off, rows are primitive] fm_inv(matrix, vertices, vertices.len() as int, old(matrix)[0].len() as int)
@entry lemma_fm_rect(matrix, vertices, matrix.len() as int, matrix[0].len() as int);
@loop 0
@invariant [rays so far] d <= i <= vertices.len() && R.len() == matrix.len() && bits_$S$(R, capacity($N$, vertices.len() as u64)) && fm_inv(matrix, vertices, imax(old(matrix).len() as int, i as int), d as int)
@start lemma_fm_rect(matrix, vertices, imax(old(matrix).len() as int, i as int), d as int);
@end lemma_proj(matrix, start(matrix), vertices, imax(old(matrix).len() as int, i - 1), d as int, i - 1);
@after ghost M_ = matrix; lemma_fm_rect(matrix, vertices, imax(old(matrix).len() as int, i as int), d as int);
@return lemma_from_rows(matrix, M_, vertices, vertices.len() as int, d as int);
@endfor

@fn phaseTwoHeuristic(matrix, vertices) key "phaseTwoHeuristic<panda::BitsetVariableSize, panda::BigInteger>"
@requires matrix.len() > 0 && 0 < matrix[0].len() <= matrix.len() <= vertices.len() && rect(vertices, matrix[0].len()) && fm_inv(matrix, vertices, matrix.len() as int, matrix[0].len() as int)
@ensures [no ray is cut off, rows are primitive] fm_inv(matrix, vertices, vertices.len() as int, old(matrix)[0].len() as int)
@entry lemma_fm_rect(matrix, vertices, matrix.len() as int, matrix[0].len() as int);
@loop 0
@invariant [rays so far] d == old(matrix).len() && d <= i <= vertices.len() && R.len() == matrix.len() && bits_BitsetVariableSize(R, words(vertices.len() as u64)) && fm_inv(matrix, vertices, i as int, old(matrix)[0].len() as int)
@start lemma_fm_rect(matrix, vertices, i as int, old(matrix)[0].len() as int); assert(rect(vertices, old(matrix)[0].len()) && rect(matrix, old(matrix)[0].len()));
@call detectBadRow 0 before ghost EF = facets; assert(forall|q: int| 0 <= q < facets.len() ==> (#[trigger] facets[q]).len() == old(matrix)[0].len());
@call detectBadRow 0 after lemma_all_below(EF, matrix, vertices, i as int, old(matrix)[0].len() as int); lemma_from_rows(facets, EF, vertices, vertices.len() as int, old(matrix)[0].len() as int);
@call projection 0 before ghost M0 = matrix;
@call projection 0 after lemma_proj(matrix, M0, vertices, i as int, old(matrix)[0].len() as int, i as int);

@fn phaseTwoDispatch(matrix, vertices) key "phaseTwoDispatch<panda::BigInteger>"
@requires matrix.len() > 0 && 0 < matrix[0].len() <= matrix.len() <= vertices.len() && rect(vertices, matrix[0].len()) && fm_inv(matrix, vertices, matrix.len() as int, matrix[0].len() as int)
@ensures [no ray is cut off, rows are primitive] fm_inv(matrix, vertices, vertices.len() as int, old(matrix)[0].len() as int)

@foreach F P in fourierMotzkinElimination|phaseTwoDispatch fourierMotzkinEliminationHeuristic|phaseTwoHeuristic
@fn panda::algorithm::$F$(input) key "$F$<panda::BigInteger>"
@requires input.len() > 0 && rect(input, input[0].len()) && nonzero(input)
@ensures [every row is primitive, satisfied by every input row, and not with equality by all] forall|k: int| 0 <= k < result.len() ==> supports(#[trigger] result[k], old(input), old(input)[0].len() as int)
@entry ghost IN = input; ghost W = input[0].len() as int; assert(IN == old(input)); assert(W > 0);
@call gaussianElimination 0 before lemma_starts(matrix, IN);
@call gaussianElimination 0 after ghost GM = matrix; ghost LC = result.0; ghost TC = result.1; lemma_gcols(IN, W, GM, TC, LC); lemma_tcol(IN, W, GM, TC, LC); assert(forall|i: int| 0 <= i < GM.len() ==> (#[trigger] GM[i]).len() == W);
@call transpose 0 before assert(matrix =~= GM.skip(IN.len() as int)); assert(matrix[0] == GM[IN.len() as int]); assert(rect(matrix, W as nat));
@call extractEquations 0 before ghost XT = matrix; lemma_indices(IN, W, GM, TC, LC, equation_indices); assert(forall|c: int| 0 <= c < W ==> #[trigger] XT[c] =~= xc(GM, IN.len() as int, W, c));
@call eliminateZeroColumns 0 before ghost B = matrix; lemma_fme_start(IN, W, GM, TC, LC, equation_indices, XT, B);
@call eliminateZeroColumns 0 after ghost S = input; ghost ZC = result; lemma_fme_width(IN, W, GM, TC, LC, B, ZC); assert(stripped(matrix, B, ZC)); assert(stripped(S, IN, ZC)); assert(forall|i: int| 0 <= i < B.len() ==> zero_at(#[trigger] B[i], ZC)) by { assert forall|i: int| 0 <= i < B.len() implies zero_at(#[trigger] B[i], ZC) by { assert(matrix[i] == strip(B[i], ZC)); } }
@loop 0
@before lemma_reorder_init(S, TC); assert(ascending(TC, S.len() as int)) by { assert forall|k: int| 0 <= k < TC.len() implies #[trigger] TC[k] < S.len() by { assert(0 <= tcol(GM, W, TC, k)); } }
@invariant [pivot rays are moved to the front] used_indices == TC && 0 <= it <= TC.len() && reordered(input, used, S, TC, it)
@start lemma_reorder_shape(input, used, S, TC, it);
@end lemma_reorder_step(start(input), start(used), S, TC, it - 1);
@after ghost RI = input; lemma_fme_inv(IN, W, GM, TC, LC, B, ZC, matrix, S, RI, used);
@call $P$ 0 before ghost V = input; assert(input =~= used + RI); assert(matrix[0].len() == W - ZC.len()) by { lemma_fm_rect(matrix, V, TC.len() as int, W - ZC.len()); }
@call reinsertZeroColumns 0 before ghost M3 = matrix; lemma_fm_rect(M3, V, V.len() as int, W - ZC.len()); assert(exists|n: int| #[trigger] descending(zero_columns, n) && forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() == n - zero_columns.len()) by { assert(descending(ZC, W)); }
@return assert forall|k: int| 0 <= k < matrix.len() implies supports(#[trigger] matrix[k], IN, W) by { assert(matrix[k] == exp_row(M3[k], ZC)); lemma_fm_row(M3, V, V.len() as int, W - ZC.len(), k); lemma_fme_end(IN, W, ZC, S, V, M3[k]); }
@endfor
