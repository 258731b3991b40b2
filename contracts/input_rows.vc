@unit input_rows
@tu src/input_constraint.cpp
@mode Z
@native int
@lib prelude input_rows
@open panda::input::skipWhitespace panda::input::skipEndOfLine panda::input::containsNames panda::input::trimWhitespace panda::input::firstWord panda::peekLine panda::input::implementation::isKeyword panda::input::implementation::isKeywordEnd panda::input::implementation::isKeywordEquations panda::input::implementation::isKeywordInequalities panda::input::implementation::isKeywordReducedInequalities
@open panda::input::implementation::constraint keyword_condition

@foreach K in Inequality Equation
@fn potentiallyNamedConstraint(stream, names) key "potentiallyNamedConstraint<panda::ConstraintType::$K$>"
@throws
@opt nodec

@fn panda::input::implementation::constraints(stream, names) key "constraints<panda::ConstraintType::$K$>"
@throws
@opt nodec
@ensures [rows are not empty] filled(result)
@loop 0
@invariant [rows so far] filled(rows)
@endfor
