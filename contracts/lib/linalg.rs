pub open spec fn vadd(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] + b[i]) }
pub open spec fn vsub(a: Seq<int>, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] - b[i]) }
pub open spec fn vscale(a: Seq<int>, f: int) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] * f) }
pub open spec fn vdiv(a: Seq<int>, f: int) -> Seq<int> { Seq::new(a.len(), |i: int| tdiv(a[i], f)) }
pub open spec fn sgn(a: int) -> int { if a > 0 { 1 } else if a < 0 { -1 } else { 0 } }
pub open spec fn all_zero(a: Seq<int>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == 0 }
pub open spec fn rect(m: Seq<Seq<int>>, n: nat) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).len() == n }

pub proof fn lemma_dot_ext(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>)
  requires a.len() == c.len(), b.len() >= a.len(), d.len() >= c.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == c[i], forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == d[i]
  ensures dot(a, b) == dot(c, d) decreases a.len()
{ if a.len() > 0 { lemma_dot_ext(a.drop_last(), b.drop_last(), c.drop_last(), d.drop_last()); lemma_dot_prefix(a, b); lemma_dot_prefix(c, d);
    assert(dot(a.drop_last(), b.drop_last()) == dot(c.drop_last(), d.drop_last())); } }
// the second argument only matters on the first a.len() positions
pub proof fn lemma_dot_prefix(a: Seq<int>, b: Seq<int>) requires a.len() > 0, b.len() >= a.len()
  ensures dot(a.drop_last(), b) == dot(a.drop_last(), b.drop_last()) decreases a.len()
{ lemma_dot_cut(a.drop_last(), b, b.drop_last()); }
pub proof fn lemma_dot_cut(a: Seq<int>, b: Seq<int>, d: Seq<int>) requires b.len() >= a.len(), d.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == d[i]
  ensures dot(a, b) == dot(a, d) decreases a.len()
{ if a.len() > 0 { lemma_dot_cut(a.drop_last(), b, d); } }
pub proof fn lemma_dot_comm(a: Seq<int>, b: Seq<int>) requires a.len() == b.len() ensures dot(a, b) == dot(b, a) decreases a.len()
{ if a.len() > 0 { lemma_dot_comm(a.drop_last(), b.drop_last()); lemma_dot_prefix(a, b); lemma_dot_prefix(b, a);
    assert(a[a.len() - 1] * b[a.len() - 1] == b[b.len() - 1] * a[b.len() - 1]) by (nonlinear_arith) requires a.len() == b.len(); } }
pub proof fn lemma_dot_add(a: Seq<int>, b: Seq<int>, x: Seq<int>) requires a.len() == b.len(), x.len() >= a.len()
  ensures dot(vadd(a, b), x) == dot(a, x) + dot(b, x) decreases a.len()
{ if a.len() > 0 { lemma_dot_add(a.drop_last(), b.drop_last(), x); assert(vadd(a, b).drop_last() =~= vadd(a.drop_last(), b.drop_last()));
    let n = a.len() - 1; assert((a[n] + b[n]) * x[n] == a[n] * x[n] + b[n] * x[n]) by (nonlinear_arith); } }
pub proof fn lemma_dot_sub(a: Seq<int>, b: Seq<int>, x: Seq<int>) requires a.len() == b.len(), x.len() >= a.len()
  ensures dot(vsub(a, b), x) == dot(a, x) - dot(b, x) decreases a.len()
{ if a.len() > 0 { lemma_dot_sub(a.drop_last(), b.drop_last(), x); assert(vsub(a, b).drop_last() =~= vsub(a.drop_last(), b.drop_last()));
    let n = a.len() - 1; assert((a[n] - b[n]) * x[n] == a[n] * x[n] - b[n] * x[n]) by (nonlinear_arith); } }
pub proof fn lemma_dot_scale(a: Seq<int>, f: int, x: Seq<int>) requires x.len() >= a.len()
  ensures dot(vscale(a, f), x) == dot(a, x) * f decreases a.len()
{ if a.len() > 0 { lemma_dot_scale(a.drop_last(), f, x); assert(vscale(a, f).drop_last() =~= vscale(a.drop_last(), f));
    let n = a.len() - 1; assert((a[n] * f) * x[n] + dot(a.drop_last(), x) * f == (dot(a.drop_last(), x) + a[n] * x[n]) * f) by (nonlinear_arith); } else { assert(0 * f == 0) by (nonlinear_arith); } }
pub proof fn lemma_dot_zero(a: Seq<int>, x: Seq<int>) requires all_zero(a), x.len() >= a.len() ensures dot(a, x) == 0 decreases a.len()
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.drop_last().len() implies #[trigger] a.drop_last()[i] == 0 by { assert(a[i] == 0); } lemma_dot_zero(a.drop_last(), x);
    let n = a.len() - 1; assert(a[n] * x[n] == 0) by (nonlinear_arith) requires a[n] == 0; } }
pub proof fn lemma_sgn_mul(a: int, b: int) requires b > 0 ensures sgn(a * b) == sgn(a)
{ assert(a > 0 ==> a * b > 0) by (nonlinear_arith) requires b > 0; assert(a < 0 ==> a * b < 0) by (nonlinear_arith) requires b > 0; assert(a == 0 ==> a * b == 0) by (nonlinear_arith); }
