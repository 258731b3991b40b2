@unit input_vertex
@tu src/input_vertex.cpp
@mode Z
@native int
@lib input_rows
@import row_ops@int
@open panda::input::isEndOfLine panda::input::isEndOfFile panda::input::isWhitespace panda::input::skipWhitespace panda::input::skipEndOfLine panda::input::isIdentifier panda::input::identifier panda::input::trimWhitespace panda::input::firstWord panda::peekLine panda::input::implementation::isKeyword panda::input::implementation::isKeywordEnd panda::input::implementation::isKeywordConvexHull panda::input::implementation::isKeywordConicalHull panda::input::implementation::isKeywordReducedConvexHull panda::input::implementation::isKeywordReducedConicalHull

@fn vertex(stream)
@throws
@opt nodec
@ensures [nothing, or the coordinates and the common denominator] true
@loop 0
@invariant numerator.len() == denominator.len() && forall|i: int| 0 <= i < denominator.len() ==> #[trigger] denominator[i] != 0
@loop 1
@invariant numerator.len() == denominator.len()

@foreach F V in verticesConvex|conv verticesConical|cone
@fn panda::input::implementation::$F$(stream)
@throws
@opt nodec
@ensures [rows are not empty] filled(result)
@loop 0
@invariant [rows so far] filled($V$)
@endfor
