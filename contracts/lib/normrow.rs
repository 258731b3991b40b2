// reduction of a row by equations, one after the other
pub open spec fn lead(e: Seq<int>) -> int { find_first(e, |x: int| x != 0) }
pub open spec fn proper(e: Seq<int>) -> bool { lead(e) < e.len() && e[lead(e)] > 0 }
pub open spec fn red1(r: Seq<int>, e: Seq<int>) -> Seq<int> { if r[lead(e)] != 0 { vsub(vscale(r, e[lead(e)]), vscale(e, r[lead(e)])) } else { r } }
pub open spec fn redall(r: Seq<int>, eqs: Seq<Seq<int>>) -> Seq<int> decreases eqs.len() { if eqs.len() == 0 { r } else { red1(redall(r, eqs.drop_last()), eqs[eqs.len() - 1]) } }
pub open spec fn solves(x: Seq<int>, eqs: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < eqs.len() ==> dot(#[trigger] eqs[i], x) == 0 }
pub open spec fn propers(eqs: Seq<Seq<int>>, n: nat) -> bool { forall|i: int| 0 <= i < eqs.len() ==> (#[trigger] eqs[i]).len() == n && proper(eqs[i]) }
pub open spec fn zeroat(e: Seq<int>, i: int) -> bool { e[i] == 0 }
// equations below do not bring the leading position of equation i back
pub open spec fn settled(eqs: Seq<Seq<int>>, i: int, k: int) -> bool { forall|j: int| i < j < k ==> zeroat(#[trigger] eqs[j], lead(eqs[i])) }
pub proof fn lemma_lead(e: Seq<int>) ensures 0 <= lead(e) <= e.len(), forall|i: int| 0 <= i < lead(e) ==> #[trigger] e[i] == 0, lead(e) < e.len() ==> e[lead(e)] != 0
{ let p = |x: int| x != 0; lemma_find_first(e, p); assert forall|i: int| 0 <= i < lead(e) implies #[trigger] e[i] == 0 by { assert(!p(e[i])); } assert(lead(e) < e.len() ==> p(e[lead(e)])); }
pub proof fn lemma_red1(r: Seq<int>, e: Seq<int>) requires r.len() == e.len(), proper(e)
  ensures red1(r, e).len() == r.len(), red1(r, e)[lead(e)] == 0,
    forall|p: int| 0 <= p < r.len() && r[p] == 0 && zeroat(e, p) ==> #[trigger] red1(r, e)[p] == 0,
    forall|x: Seq<int>| x.len() == r.len() && dot(e, x) == 0 ==> sgn(#[trigger] dot(red1(r, e), x)) == sgn(dot(r, x))
{
  lemma_lead(e);
  let a = r[lead(e)]; let b = e[lead(e)];
  if a != 0 {
    assert(a * b - b * a == 0) by (nonlinear_arith);
    assert forall|p: int| 0 <= p < r.len() && r[p] == 0 && zeroat(e, p) implies #[trigger] red1(r, e)[p] == 0 by { assert(0 * b == 0 && 0 * a == 0) by (nonlinear_arith); }
    assert forall|x: Seq<int>| x.len() == r.len() && dot(e, x) == 0 implies sgn(#[trigger] dot(red1(r, e), x)) == sgn(dot(r, x)) by {
      lemma_dot_sub(vscale(r, b), vscale(e, a), x); lemma_dot_scale(r, b, x); lemma_dot_scale(e, a, x);
      assert(0 * a == 0) by (nonlinear_arith);
      lemma_sgn_mul(dot(r, x), b);
    }
  }
}
pub proof fn lemma_redall(r: Seq<int>, eqs: Seq<Seq<int>>) requires propers(eqs, r.len())
  ensures redall(r, eqs).len() == r.len(),
    forall|i: int| 0 <= i < eqs.len() && settled(eqs, i, eqs.len() as int) ==> redall(r, eqs)[lead(#[trigger] eqs[i])] == 0,
    forall|x: Seq<int>| x.len() == r.len() && solves(x, eqs) ==> sgn(#[trigger] dot(redall(r, eqs), x)) == sgn(dot(r, x))
  decreases eqs.len()
{
  if eqs.len() > 0 {
    let t = eqs.drop_last(); let n = eqs.len() - 1; let e = eqs[n];
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() == r.len() && proper(t[i]) by { assert(t[i] == eqs[i]); }
    assert(eqs[n].len() == r.len() && proper(eqs[n]));
    lemma_redall(r, t); let q = redall(r, t); lemma_red1(q, e);
    assert forall|i: int| 0 <= i < eqs.len() && settled(eqs, i, eqs.len() as int) implies redall(r, eqs)[lead(#[trigger] eqs[i])] == 0 by {
      if i < n { assert(t[i] == eqs[i]); assert(settled(t, i, n)) by { assert forall|j: int| i < j < n implies zeroat(#[trigger] t[j], lead(t[i])) by { assert(zeroat(eqs[j], lead(eqs[i]))); } }
        assert(q[lead(t[i])] == 0); assert(zeroat(eqs[n], lead(eqs[i]))); lemma_lead(eqs[i]); assert(red1(q, e)[lead(eqs[i])] == 0); }
    }
    assert forall|x: Seq<int>| x.len() == r.len() && solves(x, eqs) implies sgn(#[trigger] dot(redall(r, eqs), x)) == sgn(dot(r, x)) by {
      assert(dot(eqs[n], x) == 0);
      assert(solves(x, t)) by { assert forall|i: int| 0 <= i < t.len() implies dot(#[trigger] t[i], x) == 0 by { assert(dot(eqs[i], x) == 0); } }
      assert(sgn(dot(red1(q, e), x)) == sgn(dot(q, x)));
    }
  }
}
// division by the greatest common divisor
pub open spec fn primitive(s: Seq<int>) -> Seq<int> { if row_gcd(s) > 1 { vdiv(s, row_gcd(s)) } else { s } }
pub proof fn lemma_tdiv_exact(q: int, g: int) requires g > 0 ensures tdiv(g * q, g) == q
{
  if q >= 0 { assert(g * q >= 0) by (nonlinear_arith) requires g > 0, q >= 0; lemma_div_multiples_vanish(q, g); }
  else { assert(g * q < 0) by (nonlinear_arith) requires g > 0, q < 0; assert(-(g * q) == g * (-q)) by (nonlinear_arith); lemma_div_multiples_vanish(-q, g); }
}
pub proof fn lemma_primitive(s: Seq<int>)
  ensures primitive(s).len() == s.len(), row_gcd(primitive(s)) <= 1, row_gcd(s) > 0 ==> s =~= vscale(primitive(s), row_gcd(s)), row_gcd(s) == 0 ==> primitive(s) == s,
    forall|p: int| 0 <= p < s.len() && s[p] == 0 ==> #[trigger] primitive(s)[p] == 0,
    forall|x: Seq<int>| x.len() == s.len() ==> sgn(#[trigger] dot(primitive(s), x)) == sgn(dot(s, x))
{
  lemma_row_gcd(s);
  let g = row_gcd(s); let t = primitive(s);
  if g > 0 {
    assert forall|p: int| 0 <= p < s.len() implies #[trigger] vscale(t, g)[p] == s[p] && (s[p] == 0 ==> t[p] == 0) by {
      assert(divides(g, s[p]));
      let q = choose|q: int| #[trigger] (g * q) == s[p];
      if g > 1 { lemma_tdiv_exact(q, g); assert(t[p] == q); assert(q * g == g * q) by (nonlinear_arith); if s[p] == 0 { assert(q == 0) by (nonlinear_arith) requires g * q == 0, g > 0; } } else { assert(t[p] * 1 == t[p]); }
    }
    assert(s =~= vscale(t, g));
    assert forall|p: int| 0 <= p < s.len() && s[p] == 0 implies #[trigger] t[p] == 0 by { assert(vscale(t, g)[p] == s[p]); }
    assert forall|x: Seq<int>| x.len() == s.len() implies sgn(#[trigger] dot(t, x)) == sgn(dot(s, x)) by { lemma_dot_scale(t, g, x); lemma_sgn_mul(dot(t, x), g); }
    lemma_row_gcd(t); let h = row_gcd(t);
    assert forall|p: int| 0 <= p < s.len() implies divides(g * h, #[trigger] s[p]) by {
      assert(divides(h, t[p])); let q = choose|q: int| #[trigger] (h * q) == t[p];
      assert(vscale(t, g)[p] == s[p]); assert((g * h) * q == s[p]) by (nonlinear_arith) requires h * q == t[p], t[p] * g == s[p];
    }
    assert(divides(g * h, g)); let q = choose|q: int| #[trigger] ((g * h) * q) == g;
    assert(h * q == 1) by (nonlinear_arith) requires (g * h) * q == g, g > 0;
    assert(h <= 1) by (nonlinear_arith) requires h * q == 1, h >= 0;
  }
}
