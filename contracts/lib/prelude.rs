// Translation support: spec-level meaning of the C++ operations the translator emits.
#[verifier::external_body]
fn lift(Ghost(b): Ghost<bool>) -> (r: bool) ensures r == b { unimplemented!() }
// an unknown value
#[verifier::external_body]
fn any<T>() -> Ghost<T> { unimplemented!() }

// no object is larger than the 47 bit user address space
pub open spec fn MAXLEN() -> u64 { 0x8000_0000_0000u64 }
pub open spec fn zabs(a: int) -> int { if a < 0 { -a } else { a } }
// C++ integer division and remainder truncate toward zero
pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn tmod(a: int, b: int) -> int { a - b * tdiv(a, b) }

pub open spec fn uadd64(a: u64, b: u64) -> u64 { if a + b > u64::MAX { (a + b - 0x1_0000_0000_0000_0000) as u64 } else { (a + b) as u64 } }
pub open spec fn usub64(a: u64, b: u64) -> u64 { if a - b < 0 { (a - b + 0x1_0000_0000_0000_0000) as u64 } else { (a - b) as u64 } }
pub open spec fn umul64(a: u64, b: u64) -> u64 { ((a * b) % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn uadd32(a: u32, b: u32) -> u32 { if a + b > u32::MAX { (a + b - 0x1_0000_0000) as u32 } else { (a + b) as u32 } }
pub open spec fn usub32(a: u32, b: u32) -> u32 { if a - b < 0 { (a - b + 0x1_0000_0000) as u32 } else { (a - b) as u32 } }
pub open spec fn umul32(a: u32, b: u32) -> u32 { ((a * b) % 0x1_0000_0000) as u32 }
pub open spec fn wrap_u64(a: int) -> u64 { if 0 <= a <= u64::MAX { a as u64 } else if i64::MIN <= a < 0 { (a + 0x1_0000_0000_0000_0000) as u64 } else { (a % 0x1_0000_0000_0000_0000) as u64 } }
pub open spec fn wrap_u32(a: int) -> u32 { if 0 <= a <= u32::MAX { a as u32 } else { (a % 0x1_0000_0000) as u32 } }
pub open spec fn wrap_u16(a: int) -> u16 { if 0 <= a <= u16::MAX { a as u16 } else { (a % 0x1_0000) as u16 } }
pub open spec fn wrap_u8(a: int) -> u8 { if 0 <= a <= u8::MAX { a as u8 } else { (a % 0x100) as u8 } }
// narrowing to a signed type is implementation-defined; gcc and clang reduce modulo 2^n
pub open spec fn wrap_i64(a: int) -> i64 { if i64::MIN <= a <= i64::MAX { a as i64 } else if (a % 0x1_0000_0000_0000_0000) <= i64::MAX { (a % 0x1_0000_0000_0000_0000) as i64 } else { (a % 0x1_0000_0000_0000_0000 - 0x1_0000_0000_0000_0000) as i64 } }
pub open spec fn wrap_i32(a: int) -> i32 { if i32::MIN <= a <= i32::MAX { a as i32 } else if (a % 0x1_0000_0000) <= i32::MAX { (a % 0x1_0000_0000) as i32 } else { (a % 0x1_0000_0000 - 0x1_0000_0000) as i32 } }
pub open spec fn wrap_i16(a: int) -> i16 { if i16::MIN <= a <= i16::MAX { a as i16 } else if (a % 0x1_0000) <= i16::MAX { (a % 0x1_0000) as i16 } else { (a % 0x1_0000 - 0x1_0000) as i16 } }
pub open spec fn wrap_i8(a: int) -> i8 { if i8::MIN <= a <= i8::MAX { a as i8 } else if (a % 0x100) <= i8::MAX { (a % 0x100) as i8 } else { (a % 0x100 - 0x100) as i8 } }

// the decimal digits std::to_string yields (left open)
pub uninterp spec fn to_string_(x: int) -> Seq<i8>;
pub open spec fn seq_fill<T>(n: int, v: T) -> Seq<T> { Seq::new(n as nat, |i: int| v) }
pub open spec fn seq_resize<T>(s: Seq<T>, n: int, v: T) -> Seq<T> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { v }) }

pub open spec fn keep<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
  if s.len() == 0 { s } else if p(s[s.len() - 1]) { keep(s.drop_last(), p).push(s[s.len() - 1]) } else { keep(s.drop_last(), p) }
}
pub proof fn lemma_keep<T>(s: Seq<T>, p: spec_fn(T) -> bool)
  ensures keep(s, p).len() <= s.len(),
    forall|i: int| 0 <= i < keep(s, p).len() ==> p(#[trigger] keep(s, p)[i]) && s.contains(keep(s, p)[i]),
    forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> keep(s, p).contains(s[i])
  decreases s.len()
{
  if s.len() > 0 {
    let d = s.drop_last(); let l = s.len() - 1; lemma_keep(d, p); let k = keep(s, p); let kd = keep(d, p);
    assert forall|i: int| 0 <= i < k.len() implies p(#[trigger] k[i]) && s.contains(k[i]) by {
      if i < kd.len() { assert(k[i] == kd[i]); assert(d.contains(kd[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == kd[i]; assert(s[j] == k[i]); } else { assert(k[i] == s[l]); }
    }
    assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies k.contains(s[i]) by {
      if i < l { assert(d[i] == s[i]); assert(kd.contains(d[i])); let j = choose|j: int| 0 <= j < kd.len() && kd[j] == d[i]; assert(k[j] == s[i]); } else { assert(k[k.len() - 1] == s[l]); }
    }
  }
}
pub open spec fn find_first<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> int decreases s.len() {
  if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + find_first(s.drop_first(), p) }
}
pub proof fn lemma_find_first<T>(s: Seq<T>, p: spec_fn(T) -> bool)
  ensures 0 <= find_first(s, p) <= s.len(),
    forall|i: int| 0 <= i < find_first(s, p) ==> !p(#[trigger] s[i]),
    find_first(s, p) < s.len() ==> p(s[find_first(s, p)]),
  decreases s.len()
{
  if s.len() != 0 && !p(s[0]) {
    lemma_find_first(s.drop_first(), p);
    assert forall|i: int| 0 <= i < find_first(s, p) implies !p(#[trigger] s[i]) by {
      if i > 0 { assert(s[i] == s.drop_first()[i - 1]); }
    }
  }
}
pub open spec fn first_diff<T>(s: Seq<T>, t: Seq<T>) -> int decreases s.len() {
  if s.len() == 0 || t.len() == 0 { 0 } else if s[0] != t[0] { 0 } else { 1 + first_diff(s.drop_first(), t.drop_first()) }
}
pub proof fn lemma_first_diff<T>(s: Seq<T>, t: Seq<T>)
  requires s.len() <= t.len()
  ensures 0 <= first_diff(s, t) <= s.len(),
    forall|i: int| 0 <= i < first_diff(s, t) ==> #[trigger] s[i] == t[i],
    first_diff(s, t) < s.len() ==> s[first_diff(s, t)] != t[first_diff(s, t)],
  decreases s.len()
{
  if s.len() != 0 && s[0] == t[0] {
    lemma_first_diff(s.drop_first(), t.drop_first());
    assert forall|i: int| 0 <= i < first_diff(s, t) implies #[trigger] s[i] == t[i] by {
      if i > 0 { assert(s[i] == s.drop_first()[i - 1]); assert(t[i] == t.drop_first()[i - 1]); }
    }
  }
}
pub open spec fn seq_any<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) }
pub open spec fn seq_count<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> nat { s.filter(p).len() }
// C++ inner_product over the first range
pub open spec fn dot(a: Seq<int>, b: Seq<int>) -> int decreases a.len() {
  if a.len() == 0 { 0 } else { dot(a.drop_last(), b) + a[a.len() - 1] * b[a.len() - 1] }
}
pub open spec fn seq_sum(a: Seq<int>) -> int decreases a.len() { if a.len() == 0 { 0 } else { seq_sum(a.drop_last()) + a[a.len() - 1] } }
pub proof fn lemma_div_basics_auto() ensures forall|x: int| tdiv(x, 1) == x { assert forall|x: int| tdiv(x, 1) == x by { lemma_div_basics(x); lemma_div_basics(-x); } }
