@unit print
@tu src/algorithm_row_operations.cpp
@mode Z
@native int
@ostreams
@lib prelude gcdlib print
@import inequality_ops@int integer_ops@int cast

@fn operator<<(output, row) key "operator<<<int>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<int,"
@ensures [the entries in order] output =~= old(output) + plain_text(row, row.len() as int)
@loop 0
@invariant [the entries so far] output =~= old(output) + plain_text(row, $k)

@fn panda::algorithm::prettyPrint(output, row, names, relation) key "prettyPrint<int>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<int,"
@requires row.len() == names.len() + 1 || names.len() == 0
@ensures [the terms, the relation, the right hand side] output =~= old(output) + row_text(row, names, relation)
@loop 0
@invariant [the terms so far] names.len() > 0 && i < row.len() && printed_something == some_term(row, i as int) && output =~= old(output) + terms_text(row, names, i as int)
@decreases row.len() - i

@fn panda::algorithm::prettyPrintln(output, row, names, relation) key "prettyPrintln<int>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<int,"
@requires row.len() == names.len() + 1 || names.len() == 0
@ensures [a line] output =~= old(output) + row_text(row, names, relation) + seq![10i8]

@fn panda::algorithm::printFractional(stream, vertex) key "printFractional<int>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<int,"
@requires vertex.len() > 0 && vertex[vertex.len() - 1] != 0
@ensures [the coordinates in lowest terms] stream =~= old(stream) + vertex_text(vertex, vertex.len() - 1)
@loop 0
@before lemma_sign(denominator_is_negative, vertex[vertex.len() - 1]);
@invariant [the coordinates so far] i < vertex.len() && denominator_is_negative == (vertex[vertex.len() - 1] < 0) && denominator == den_of(vertex) && denominator > 0 && stream =~= old(stream) + vertex_text(vertex, i as int)
@decreases vertex.len() - i
@start lemma_sign(denominator_is_negative, vertex[i as int]); lemma_gcd(vertex[i as int], denominator as int);

@foreach T V in short|ints16 long|ints64 panda::BigInteger|intsz panda::SafeInteger|intsz
@fn operator<<(output, row) key "operator<<<$T$>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<$T$,"
@throws
@ensures [the entries in order] output =~= old(output) + plain_text($V$(row), row.len() as int)
@exc [refused only if an entry does not fit, and before anything is printed] !all_int($V$(row)) && output == old(output)
@entry lemma_$V$(row);

@fn panda::algorithm::prettyPrint(output, row, names, relation) key "prettyPrint<$T$>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<$T$,"
@requires row.len() == names.len() + 1 || names.len() == 0
@throws
@ensures [the terms, the relation, the right hand side] output =~= old(output) + row_text($V$(row), names, relation)
@exc [refused only if an entry does not fit, and before anything is printed] !all_int($V$(row)) && output == old(output)
@entry lemma_$V$(row);

@fn panda::algorithm::prettyPrintln(output, row, names, relation) key "prettyPrintln<$T$>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<$T$,"
@requires row.len() == names.len() + 1 || names.len() == 0
@throws
@ensures [a line] output =~= old(output) + row_text($V$(row), names, relation) + seq![10i8]
@exc [refused only if an entry does not fit, and before anything is printed] !all_int($V$(row)) && output == old(output)
@entry lemma_$V$(row);

@fn panda::algorithm::printFractional(stream, vertex) key "printFractional<$T$>(std::basic_ostream<char, std::char_traits<char>> &,const std::vector<$T$,"
@requires vertex.len() > 0 && vertex[vertex.len() - 1] != 0
@throws
@ensures [the coordinates in lowest terms] stream =~= old(stream) + vertex_text($V$(vertex), vertex.len() - 1)
@exc [refused only if a coordinate does not fit, and before anything is printed] !all_int($V$(vertex)) && stream == old(stream)
@entry lemma_$V$(vertex);
@endfor
