@unit print_matrix
@tu src/algorithm_matrix_operations.cpp
@mode Z
@native int
@ostreams
@lib prelude gcdlib print
@import print

@fn operator<<(output, matrix) key "operator<<<int>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<std::vector<int,"
@ensures [one row per line, in order] output =~= old(output) + matrix_text(matrix, Seq::empty(), Seq::empty(), matrix.len() as int)
@loop 0
@invariant [the rows so far] output =~= old(output) + matrix_text(matrix, Seq::empty(), Seq::empty(), $k)

@fn panda::algorithm::prettyPrint(output, matrix, names, relation) key "prettyPrint<int>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<std::vector<int,"
@requires names.len() == 0 || forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() == names.len() + 1
@ensures [one row per line, in order] output =~= old(output) + matrix_text(matrix, names, relation, matrix.len() as int)
@loop 0
@invariant [the rows so far] output =~= old(output) + matrix_text(matrix, names, relation, $k)

@foreach T V in short|ints16 long|ints64 panda::BigInteger|intsz panda::SafeInteger|intsz
@fn operator<<(output, matrix) key "operator<<<$T$>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<std::vector<$T$,"
@throws
@ensures [one row per line, in order] output =~= old(output) + matrix_text(rows_$V$(matrix), Seq::empty(), Seq::empty(), matrix.len() as int)
@exc [refused only if an entry does not fit] !all_ints(rows_$V$(matrix))
@loop 0
@invariant [the rows so far] output =~= old(output) + matrix_text(rows_$V$(matrix), Seq::empty(), Seq::empty(), $k)
@start assert($V$(matrix[$k]) == rows_$V$(matrix)[$k]);

@fn panda::algorithm::prettyPrint(output, matrix, names, relation) key "prettyPrint<$T$>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<std::vector<$T$,"
@requires names.len() == 0 || forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() == names.len() + 1
@throws
@ensures [one row per line, in order] output =~= old(output) + matrix_text(rows_$V$(matrix), names, relation, matrix.len() as int)
@exc [refused only if an entry does not fit] !all_ints(rows_$V$(matrix))
@loop 0
@invariant [the rows so far] output =~= old(output) + matrix_text(rows_$V$(matrix), names, relation, $k)
@start assert($V$(matrix[$k]) == rows_$V$(matrix)[$k]);
@endfor
