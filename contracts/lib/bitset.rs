// sets of indices held in 32 bit words
pub open spec fn wbit(x: u32, i: int) -> bool { (x >> (i as u32)) & 1u32 == 1u32 }
pub open spec fn bit(d: Seq<u32>, i: int) -> bool { 0 <= i < 32 * d.len() && wbit(d[i / 32], i % 32) }
// number of words that hold the indices below max
pub open spec fn words(max: u64) -> int { (max - 1) / 32 + 1 }
// number of members below n: of a set, of the union of two sets, of a word
pub open spec fn bcard(d: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { bcard(d, n - 1) + (if bit(d, n - 1) { 1int } else { 0int }) } }
pub open spec fn ucard(a: Seq<u32>, b: Seq<u32>, n: int) -> int decreases n { if n <= 0 { 0 } else { ucard(a, b, n - 1) + (if bit(a, n - 1) || bit(b, n - 1) { 1int } else { 0int }) } }
pub open spec fn wcard(x: u32, n: int) -> int decreases n { if n <= 0 { 0 } else { wcard(x, n - 1) + (if wbit(x, n - 1) { 1int } else { 0int }) } }
pub open spec fn popcnt(x: u32) -> int { wcard(x, 32) }
pub open spec fn subset_to(b: Seq<u32>, a: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] bit(b, i) ==> bit(a, i) }
pub proof fn lemma_wcard(x: u32, n: int) requires 0 <= n ensures 0 <= wcard(x, n) <= n decreases n { if n > 0 { lemma_wcard(x, n - 1); } }
pub proof fn lemma_bcard(d: Seq<u32>, k: int, j: int) requires 0 <= k < d.len(), 0 <= j <= 32 ensures bcard(d, 32 * k + j) == bcard(d, 32 * k) + wcard(d[k], j) decreases j
{ if j > 0 { lemma_bcard(d, k, j - 1); let i = 32 * k + j - 1; assert(i / 32 == k && i % 32 == j - 1); } }
pub proof fn lemma_ucard(a: Seq<u32>, b: Seq<u32>, k: int, j: int) requires 0 <= k < a.len(), a.len() == b.len(), 0 <= j <= 32
  ensures ucard(a, b, 32 * k + j) == ucard(a, b, 32 * k) + wcard(a[k], j) + wcard(b[k], j) - wcard(a[k] & b[k], j) decreases j
{ if j > 0 { lemma_ucard(a, b, k, j - 1); let i = 32 * k + j - 1; assert(i / 32 == k && i % 32 == j - 1); let x = a[k]; let y = b[k]; let s = (j - 1) as u32;
  assert(((x & y) >> s) & 1u32 == 1u32 <==> (x >> s) & 1u32 == 1u32 && (y >> s) & 1u32 == 1u32) by (bit_vector); } }
pub proof fn lemma_bcard_step(d: Seq<u32>, k: int) requires 0 <= k < d.len() ensures bcard(d, 32 * (k + 1)) == bcard(d, 32 * k) + popcnt(d[k]), 0 <= popcnt(d[k]) <= 32
{ lemma_bcard(d, k, 32); lemma_wcard(d[k], 32); assert(32 * (k + 1) == 32 * k + 32); }
pub proof fn lemma_ucard_step(a: Seq<u32>, b: Seq<u32>, k: int) requires 0 <= k < a.len(), a.len() == b.len()
  ensures ucard(a, b, 32 * (k + 1)) == ucard(a, b, 32 * k) + popcnt(a[k]) + popcnt(b[k]) - popcnt(a[k] & b[k]), 0 <= popcnt(a[k]) <= 32, 0 <= popcnt(b[k]) <= 32, 0 <= popcnt(a[k] & b[k]) <= 32
{ lemma_ucard(a, b, k, 32); lemma_wcard(a[k], 32); lemma_wcard(b[k], 32); lemma_wcard(a[k] & b[k], 32); assert(32 * (k + 1) == 32 * k + 32); }
pub proof fn lemma_bcard_range(d: Seq<u32>, n: int) ensures 0 <= bcard(d, n), n >= 0 ==> bcard(d, n) <= n decreases n { if n > 0 { lemma_bcard_range(d, n - 1); } }
pub proof fn lemma_ucard_range(a: Seq<u32>, b: Seq<u32>, n: int) ensures 0 <= ucard(a, b, n), n >= 0 ==> ucard(a, b, n) <= n decreases n { if n > 0 { lemma_ucard_range(a, b, n - 1); } }
// a word holds another exactly if it holds all its bits
pub proof fn lemma_nonzero(x: u32) requires x != 0 ensures exists|i: int| 0 <= i < 32 && #[trigger] wbit(x, i)
{
  assert((x >> 0u32) & 1u32 == 1u32 || (x >> 1u32) & 1u32 == 1u32 || (x >> 2u32) & 1u32 == 1u32 || (x >> 3u32) & 1u32 == 1u32 || (x >> 4u32) & 1u32 == 1u32 || (x >> 5u32) & 1u32 == 1u32 || (x >> 6u32) & 1u32 == 1u32 || (x >> 7u32) & 1u32 == 1u32 || (x >> 8u32) & 1u32 == 1u32 || (x >> 9u32) & 1u32 == 1u32 || (x >> 10u32) & 1u32 == 1u32 || (x >> 11u32) & 1u32 == 1u32 || (x >> 12u32) & 1u32 == 1u32 || (x >> 13u32) & 1u32 == 1u32 || (x >> 14u32) & 1u32 == 1u32 || (x >> 15u32) & 1u32 == 1u32 || (x >> 16u32) & 1u32 == 1u32 || (x >> 17u32) & 1u32 == 1u32 || (x >> 18u32) & 1u32 == 1u32 || (x >> 19u32) & 1u32 == 1u32 || (x >> 20u32) & 1u32 == 1u32 || (x >> 21u32) & 1u32 == 1u32 || (x >> 22u32) & 1u32 == 1u32 || (x >> 23u32) & 1u32 == 1u32 || (x >> 24u32) & 1u32 == 1u32 || (x >> 25u32) & 1u32 == 1u32 || (x >> 26u32) & 1u32 == 1u32 || (x >> 27u32) & 1u32 == 1u32 || (x >> 28u32) & 1u32 == 1u32 || (x >> 29u32) & 1u32 == 1u32 || (x >> 30u32) & 1u32 == 1u32 || (x >> 31u32) & 1u32 == 1u32) by (bit_vector) requires x != 0;
  if (x >> 0u32) & 1u32 == 1u32 { assert(wbit(x, 0)); } if (x >> 1u32) & 1u32 == 1u32 { assert(wbit(x, 1)); } if (x >> 2u32) & 1u32 == 1u32 { assert(wbit(x, 2)); } if (x >> 3u32) & 1u32 == 1u32 { assert(wbit(x, 3)); } if (x >> 4u32) & 1u32 == 1u32 { assert(wbit(x, 4)); } if (x >> 5u32) & 1u32 == 1u32 { assert(wbit(x, 5)); } if (x >> 6u32) & 1u32 == 1u32 { assert(wbit(x, 6)); } if (x >> 7u32) & 1u32 == 1u32 { assert(wbit(x, 7)); } if (x >> 8u32) & 1u32 == 1u32 { assert(wbit(x, 8)); } if (x >> 9u32) & 1u32 == 1u32 { assert(wbit(x, 9)); } if (x >> 10u32) & 1u32 == 1u32 { assert(wbit(x, 10)); } if (x >> 11u32) & 1u32 == 1u32 { assert(wbit(x, 11)); } if (x >> 12u32) & 1u32 == 1u32 { assert(wbit(x, 12)); } if (x >> 13u32) & 1u32 == 1u32 { assert(wbit(x, 13)); } if (x >> 14u32) & 1u32 == 1u32 { assert(wbit(x, 14)); } if (x >> 15u32) & 1u32 == 1u32 { assert(wbit(x, 15)); } if (x >> 16u32) & 1u32 == 1u32 { assert(wbit(x, 16)); } if (x >> 17u32) & 1u32 == 1u32 { assert(wbit(x, 17)); } if (x >> 18u32) & 1u32 == 1u32 { assert(wbit(x, 18)); } if (x >> 19u32) & 1u32 == 1u32 { assert(wbit(x, 19)); } if (x >> 20u32) & 1u32 == 1u32 { assert(wbit(x, 20)); } if (x >> 21u32) & 1u32 == 1u32 { assert(wbit(x, 21)); } if (x >> 22u32) & 1u32 == 1u32 { assert(wbit(x, 22)); } if (x >> 23u32) & 1u32 == 1u32 { assert(wbit(x, 23)); } if (x >> 24u32) & 1u32 == 1u32 { assert(wbit(x, 24)); } if (x >> 25u32) & 1u32 == 1u32 { assert(wbit(x, 25)); } if (x >> 26u32) & 1u32 == 1u32 { assert(wbit(x, 26)); } if (x >> 27u32) & 1u32 == 1u32 { assert(wbit(x, 27)); } if (x >> 28u32) & 1u32 == 1u32 { assert(wbit(x, 28)); } if (x >> 29u32) & 1u32 == 1u32 { assert(wbit(x, 29)); } if (x >> 30u32) & 1u32 == 1u32 { assert(wbit(x, 30)); } if (x >> 31u32) & 1u32 == 1u32 { assert(wbit(x, 31)); }
}
pub proof fn lemma_inword(a: u32, b: u32) ensures (a & b == b) <==> forall|i: int| 0 <= i < 32 && #[trigger] wbit(b, i) ==> wbit(a, i)
{
  if a & b == b { assert forall|i: int| 0 <= i < 32 && #[trigger] wbit(b, i) implies wbit(a, i) by { let s = i as u32; assert((b >> s) & 1u32 == 1u32 ==> (a >> s) & 1u32 == 1u32) by (bit_vector) requires a & b == b; } }
  else {
    let x = b & !a; assert(x != 0) by (bit_vector) requires a & b != b, x == b & !a; lemma_nonzero(x); let i = choose|i: int| 0 <= i < 32 && #[trigger] wbit(x, i); let s = i as u32;
    assert((b >> s) & 1u32 == 1u32 && (a >> s) & 1u32 != 1u32) by (bit_vector) requires (x >> s) & 1u32 == 1u32, x == b & !a; assert(wbit(b, i) && !wbit(a, i));
  }
}
pub proof fn lemma_subset_step(b: Seq<u32>, a: Seq<u32>, k: int) requires 0 <= k < a.len(), a.len() == b.len() ensures subset_to(b, a, 32 * (k + 1)) <==> subset_to(b, a, 32 * k) && a[k] & b[k] == b[k]
{
  lemma_inword(a[k], b[k]);
  if subset_to(b, a, 32 * k) && a[k] & b[k] == b[k] {
    assert forall|i: int| 0 <= i < 32 * (k + 1) && #[trigger] bit(b, i) implies bit(a, i) by { if i >= 32 * k { assert(i / 32 == k); assert(wbit(b[k], i % 32)); } }
  }
  if subset_to(b, a, 32 * (k + 1)) {
    assert forall|j: int| 0 <= j < 32 && #[trigger] wbit(b[k], j) implies wbit(a[k], j) by { let i = 32 * k + j; assert(i / 32 == k && i % 32 == j); assert(bit(b, i)); assert(bit(a, i)); }
    assert(subset_to(b, a, 32 * k));
  }
}
pub proof fn lemma_subset_mono(b: Seq<u32>, a: Seq<u32>, m: int, n: int) requires m <= n, subset_to(b, a, n) ensures subset_to(b, a, m) {}
pub open spec fn union_words(a: Seq<u32>, b: Seq<u32>) -> Seq<u32> { Seq::new(a.len(), |i: int| a[i] | b[i]) }
pub proof fn lemma_or(x: u32, y: u32, i: int) requires 0 <= i < 32 ensures wbit(x | y, i) == (wbit(x, i) || wbit(y, i))
{ let s = i as u32; assert(((x | y) >> s) & 1u32 == 1u32 <==> (x >> s) & 1u32 == 1u32 || (y >> s) & 1u32 == 1u32) by (bit_vector); }
pub proof fn lemma_union(a: Seq<u32>, b: Seq<u32>, i: int) requires a.len() == b.len() ensures bit(union_words(a, b), i) == (bit(a, i) || bit(b, i))
{ if 0 <= i < 32 * a.len() { lemma_or(a[i / 32], b[i / 32], i % 32); } }
// the words below w or-ed
pub open spec fn merged(r: Seq<u32>, a: Seq<u32>, b: Seq<u32>, w: int) -> bool { r.len() == a.len() && forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == (if k < w { a[k] | b[k] } else { a[k] }) }
pub proof fn lemma_merged(r: Seq<u32>, a: Seq<u32>, b: Seq<u32>, w: int) requires merged(r, a, b, w), 0 <= w <= a.len(), b.len() == a.len()
  ensures forall|i: int| 0 <= i < 32 * w ==> #[trigger] bit(r, i) == (bit(a, i) || bit(b, i)), forall|i: int| i >= 32 * w ==> #[trigger] bit(r, i) == bit(a, i)
{ assert forall|i: int| 0 <= i < 32 * w implies #[trigger] bit(r, i) == (bit(a, i) || bit(b, i)) by { lemma_or(a[i / 32], b[i / 32], i % 32); } }
// setting the bit of index x
pub proof fn lemma_set(d: Seq<u32>, e: Seq<u32>, x: int)
  requires 0 <= x < 32 * d.len(), e =~= d.update(x / 32, d[x / 32] | (1u32 << ((x % 32) as u32)))
  ensures forall|i: int| #[trigger] bit(e, i) == (bit(d, i) || i == x)
{
  let w = d[x / 32]; let s = (x % 32) as u32;
  assert forall|i: int| #[trigger] bit(e, i) == (bit(d, i) || i == x) by {
    if 0 <= i < 32 * d.len() && i / 32 == x / 32 {
      let t = (i % 32) as u32; assert(((w | (1u32 << s)) >> t) & 1u32 == 1u32 <==> (w >> t) & 1u32 == 1u32 || s == t) by (bit_vector) requires s < 32, t < 32;
      assert(s == t <==> i == x);
    }
  }
}
pub proof fn lemma_equal_step(a: Seq<u32>, b: Seq<u32>, k: int) requires 0 <= k < a.len(), a.len() == b.len() ensures subset_to(a, b, 32 * k) && subset_to(b, a, 32 * k) ==> ((a[k] == b[k]) <==> subset_to(a, b, 32 * (k + 1)) && subset_to(b, a, 32 * (k + 1)))
{ lemma_subset_step(a, b, k); lemma_subset_step(b, a, k); let x = a[k]; let y = b[k]; assert(x == y <==> x & y == y && y & x == x) by (bit_vector); }
pub proof fn lemma_equal(a: Seq<u32>, b: Seq<u32>, k: int) requires 0 <= k <= a.len(), a.len() == b.len() ensures a.take(k) =~= b.take(k) <==> subset_to(a, b, 32 * k) && subset_to(b, a, 32 * k) decreases k
{
  if k > 0 {
    lemma_equal(a, b, k - 1); lemma_equal_step(a, b, k - 1);
    if a.take(k) =~= b.take(k) { assert(a.take(k - 1) =~= a.take(k).take(k - 1)); assert(b.take(k - 1) =~= b.take(k).take(k - 1)); assert(a.take(k)[k - 1] == b.take(k)[k - 1]); }
    if subset_to(a, b, 32 * k) && subset_to(b, a, 32 * k) {
      lemma_subset_mono(a, b, 32 * (k - 1), 32 * k); lemma_subset_mono(b, a, 32 * (k - 1), 32 * k);
      assert forall|i: int| 0 <= i < k implies a.take(k)[i] == b.take(k)[i] by { if i < k - 1 { assert(a.take(k - 1)[i] == b.take(k - 1)[i]); } }
    }
  }
}
pub proof fn lemma_ucontains(c: Seq<u32>, a: Seq<u32>, b: Seq<u32>, n: int) requires a.len() == b.len() ensures subset_to(c, union_words(a, b), n) <==> forall|i: int| 0 <= i < n && #[trigger] bit(c, i) ==> bit(a, i) || bit(b, i)
{ assert forall|i: int| #[trigger] bit(c, i) implies bit(union_words(a, b), i) == (bit(a, i) || bit(b, i)) by { lemma_union(a, b, i); } }
pub proof fn lemma_empty(d: Seq<u32>) requires forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] == 0 ensures forall|i: int| !(#[trigger] bit(d, i))
{ assert forall|i: int| !(#[trigger] bit(d, i)) by { let s = (i % 32) as u32; assert((0u32 >> s) & 1u32 != 1u32) by (bit_vector); if 0 <= i < 32 * d.len() { assert(d[i / 32] == 0); } } }
// every member of the set below n is a member of the union
pub open spec fn ucontains(a: Seq<u32>, b: Seq<u32>, inner: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] bit(inner, i) ==> bit(a, i) || bit(b, i) }
