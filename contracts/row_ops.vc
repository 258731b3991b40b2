@unit row_ops
@tu src/algorithm_row_operations.cpp
@mode Z
@lib prelude gcdlib linalg rowgcd normrow
@import integer_ops

@fn operator+=(first, second) key "operator+=<panda::BigInteger>"
@requires first.len() == second.len()
@ensures [entrywise sum] first =~= vadd(old(first), second)
@opt keepsize

@fn operator+(first, second) key "operator+<panda::BigInteger>"
@requires first.len() == second.len()
@pure vadd(first, second)

@fn operator-=(first, second) key "operator-=<panda::BigInteger>"
@requires first.len() == second.len()
@ensures [entrywise difference] first =~= vsub(old(first), second)
@opt keepsize

@fn operator-(first, second) key "operator-<panda::BigInteger>"
@requires first.len() == second.len()
@pure vsub(first, second)

@fn operator*=(row, factor) key "operator*=<panda::BigInteger>"
@ensures [entrywise product] row =~= vscale(old(row), factor)
@opt keepsize
@entry assert(forall|p: int| 0 <= p < row.len() ==> row[p] * 1 == #[trigger] row[p]);
@loop 0
@invariant [done part] forall|p: int| 0 <= p < $k ==> #[trigger] row[p] == pre(row)[p] * factor
@invariant [rest untouched] forall|p: int| $k <= p < row.len() ==> #[trigger] row[p] == pre(row)[p]

@fn operator*(row, factor) key "operator*<panda::BigInteger>(std::vector<panda::BigInteger, std::allocator<panda::BigInteger>>,const panda::BigInteger)"
@pure vscale(row, factor)

@fn operator*(factor, row) key "operator*<panda::BigInteger>(const panda::BigInteger,std::vector"
@pure vscale(row, factor)

@fn operator/=(row, divisor) key "operator/=<panda::BigInteger>"
@throws
@ensures [entrywise quotient] divisor != 0 && row =~= vdiv(old(row), divisor)
@exc [division by zero raises] divisor == 0 && row == old(row)
@opt keepsize
@entry assert(forall|p: int| 0 <= p < row.len() ==> tdiv(row[p], 1) == #[trigger] row[p]) by { lemma_div_basics_auto(); };
@loop 0
@invariant [done part] forall|p: int| 0 <= p < $k ==> #[trigger] row[p] == tdiv(pre(row)[p], divisor)
@invariant [rest untouched] forall|p: int| $k <= p < row.len() ==> #[trigger] row[p] == pre(row)[p]

@fn operator/(row, divisor) key "operator/<panda::BigInteger>"
@requires divisor != 0
@pure vdiv(row, divisor)

@fn operator*(first, second) key "operator*<panda::BigInteger>(const std::vector<panda::BigInteger, std::allocator<panda::BigInteger>> &,const std::vector"
@requires first.len() == second.len()
@pure dot(first, second)

@fn panda::algorithm::gcd(row) key "gcd<panda::BigInteger>(const std::vector"
@pure row_gcd(row)
@ensures [gcd of the row] is_row_gcd(result, row)
@ensures [zero iff all zero] result == 0 <==> all_zero(row)
@entry lemma_row_gcd(row);
@loop 0
@invariant [zero prefix] i <= row.len() && all_zero(row.take(i as int))
@decreases row.len() - i
@end assert(all_zero(row.take(i as int)));
@after if i < row.len() { lemma_row_gcd(row.take(i as int)); assert(row.take(i as int + 1).drop_last() =~= row.take(i as int)); lemma_gcd_absorb(row[i as int], 0); } else { assert(row.take(i as int) =~= row); }
@loop 1
@invariant [gcd of prefix] i <= row.len() && value == row_gcd(row.take(i as int)) && value >= 0 && (value > 0 || i == row.len())
@decreases row.len() - i
@before lemma_row_gcd(row.take(i as int));
@start assert(row.take(i as int + 1).drop_last() =~= row.take(i as int)); lemma_gcd(row[i as int], value);
@after lemma_row_gcd(row.take(i as int)); if value == 1 { lemma_row_gcd_one(row, i as int); } else if i < row.len() { } else { assert(row.take(i as int) =~= row); }

@fn panda::algorithm::lcm(row) key "lcm<panda::BigInteger>(const std::vector"
@requires no_zero(row)
@pure row_lcm(row)
@ensures [common multiple] result > 0 && forall|p: int| 0 <= p < row.len() ==> divides(#[trigger] row[p], result)
@ensures [least] forall|m: int| (forall|p: int| 0 <= p < row.len() ==> divides(#[trigger] row[p], m)) ==> #[trigger] divides(result, m)
@entry lemma_row_lcm(row);
@loop 0
@invariant [prefix of ones] i <= row.len() && row_lcm(row.take(i as int)) == 1
@decreases row.len() - i
@start assert(row.take(i as int + 1).drop_last() =~= row.take(i as int)); lemma_lcm_one(1);
@after if i < row.len() { assert(row.take(i as int + 1).drop_last() =~= row.take(i as int)); lemma_lcm_one(row[i as int]); } else { assert(row.take(i as int) =~= row); }
@loop 1
@invariant [lcm of prefix] i <= row.len() && value == row_lcm(row.take(i as int)) && value > 0
@decreases row.len() - i
@before lemma_row_lcm(row.take(i as int));
@start assert(row[i as int] != 0); assert(row.take(i as int + 1).drop_last() =~= row.take(i as int)); lemma_lcm(row[i as int], value);
@end lemma_row_lcm(row.take(i as int));
@after assert(row.take(i as int) =~= row);

@fn panda::algorithm::normalize(row, equations) key "normalize<panda::BigInteger>(std::vector<panda::BigInteger"
@requires propers(equations, row.len())
@pure primitive(redall(row, equations))
@ensures [length kept] result.len() == row.len()
@ensures [primitive] row_gcd(result) <= 1
@ensures [leading positions eliminated] forall|i: int| 0 <= i < equations.len() && settled(equations, i, equations.len() as int) ==> result[lead(#[trigger] equations[i])] == 0
@ensures [same sign on every solution of the equations] forall|x: Seq<int>| x.len() == row.len() && solves(x, equations) ==> sgn(#[trigger] dot(result, x)) == sgn(dot(row, x))
@loop 0
@invariant [reduced so far] row == redall(old(row), equations.take($k as int)) && row.len() == old(row).len()
@start lemma_redall(old(row), equations.take($k as int)); assert(equations[$k as int].len() == row.len() && proper(equations[$k as int])); lemma_lead(equations[$k as int]); assert(equations.take($k as int + 1).drop_last() =~= equations.take($k as int));
@end assert(index == lead(equations[$k - 1])); assert(row =~= redall(old(row), equations.take($k as int)));
@return lemma_redall(old(row), equations); lemma_primitive(redall(old(row), equations)); assert(result =~= primitive(redall(old(row), equations))); assert forall|i: int| 0 <= i < equations.len() implies 0 <= #[trigger] lead(equations[i]) < equations[i].len() by { lemma_lead(equations[i]); }
@after assert(equations.take($k as int) =~= equations); lemma_redall(old(row), equations); lemma_primitive(row);
