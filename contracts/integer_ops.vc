@unit integer_ops
@tu src/algorithm_integer_operations.cpp
@mode Z
@lib prelude gcdlib

@fn panda::algorithm::gcd(a, b) key "gcd<panda::BigInteger>(panda::BigInteger"
@pure gcd_spec(a, b)
@ensures [non-negative] result >= 0
@ensures [positive unless both zero] (a != 0 || b != 0) ==> result > 0
@ensures [divides both] divides(result, a) && divides(result, b)
@ensures [greatest] forall|d: int| divides(d, a) && divides(d, b) ==> #[trigger] divides(d, result)
@entry lemma_gcd(a, b);

@fn unsigned_gcd(a, b) key "unsigned_gcd<panda::BigInteger>"
@requires a >= 0 && b >= 0
@pure gcdn(a, b)
@loop 0
@invariant [gcd preserved] a >= 0 && b >= 0 && gcdn(a, b) == gcdn(old(a), old(b))
@decreases a + b
@start if a > b { lemma_gcdn_step(a, b); } else { lemma_gcdn_step(b, a); lemma_gcdn_sym(a, b); lemma_gcdn_sym(a, b % a); }
@return lemma_gcdn_sym(a, b);

@fn panda::algorithm::lcm(a, b) key "lcm<panda::BigInteger>(panda::BigInteger"
@requires a != 0 || b != 0
@pure lcm_spec(a, b)
@entry lemma_gcd(a, b); lemma_lcm(a, b);
@ensures [product] zabs(a * b) == result * gcd_spec(a, b)
@ensures [common multiple] divides(a, result) && divides(b, result)
