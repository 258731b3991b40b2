@unit bitset_variable
@tu src/bitset_variable_size.cpp
@mode impl
@lib prelude bitset

@fn panda::popcount(n)
@pure popcnt(n) as i32

@fn panda::BitsetVariableSize::BitsetVariableSize(bits) key "BitsetVariableSize(const unsigned long)"
@requires bits > 0
@ensures [empty, with room for all indices] result.data.len() == words(bits) && forall|i: int| !(#[trigger] bit(result.data, i))
@return lemma_empty(result.data);

@fn panda::BitsetVariableSize::equals(second, max) key "BitsetVariableSize::equals("
@opt keepsize
@requires this.data.len() == second.data.len() && max >= 1 && words(max) <= this.data.len()
@ensures [same members in the words covered] result == (subset_to(this.data, second.data, 32 * words(max)) && subset_to(second.data, this.data, 32 * words(max)))
@entry lemma_equal(this.data, second.data, words(max));
@return assert(result == (this.data.take(words(max)) =~= second.data.take(words(max))));

@fn panda::BitsetVariableSize::contains(second, max) key "BitsetVariableSize::contains("
@requires this.data.len() == second.data.len() && max >= 1 && words(max) <= this.data.len()
@ensures [every member of the other in the words covered] result == subset_to(second.data, this.data, 32 * words(max))
@loop 0
@invariant [words so far] i <= words(max) && subset_to(second.data, this.data, 32 * i)
@start lemma_subset_step(second.data, this.data, i as int); if !subset_to(second.data, this.data, 32 * (i + 1)) { assert(!subset_to(second.data, this.data, 32 * words(max))); }

@fn panda::BitsetVariableSize::count(max) key "BitsetVariableSize::count("
@requires max >= 1 && words(max) <= this.data.len()
@pure bcard(this.data, 32 * words(max)) as u64
@ensures [number of members in the words covered] result == bcard(this.data, 32 * words(max))
@loop 0
@invariant [words so far] 0 <= it <= words(max) && total == bcard(this.data, 32 * it)
@start lemma_bcard_step(this.data, it); lemma_bcard_range(this.data, 32 * it);

@fn panda::BitsetVariableSize::merge(second, max) key "BitsetVariableSize::merge("
@requires this.data.len() == second.data.len() && max >= 1 && words(max) <= this.data.len()
@ensures [union in the words covered] forall|i: int| 0 <= i < 32 * words(max) ==> #[trigger] bit(result.data, i) == (bit(this.data, i) || bit(second.data, i))
@ensures [other words kept] result.data.len() == this.data.len() && forall|i: int| i >= 32 * words(max) ==> #[trigger] bit(result.data, i) == bit(this.data, i)
@loop 0
@invariant [words so far] i <= words(max) && merged(result.data, this.data, second.data, i as int)
@after lemma_merged(result.data, this.data, second.data, words(max));

@fn panda::BitsetVariableSize::set(index) key "BitsetVariableSize::set("
@requires index < 32 * this.data.len()
@ensures [exactly one index added] this.data.len() == old(this).data.len() && forall|i: int| #[trigger] bit(this.data, i) == (bit(old(this).data, i) || i == index)
@return lemma_set(old(this).data, this.data, index as int);

@fn panda::BitsetVariableSize::unionCount(a, b, max) key "BitsetVariableSize::unionCount("
@requires a.data.len() == b.data.len() && max >= 1 && words(max) <= a.data.len()
@ensures [number of members of the union in the words covered] result == ucard(a.data, b.data, 32 * words(max))
@loop 0
@invariant [words so far] 0 <= ita <= words(max) && itb == ita && total == ucard(a.data, b.data, 32 * ita)
@start lemma_ucard_step(a.data, b.data, ita); lemma_ucard_range(a.data, b.data, 32 * ita); lemma_ucard_range(a.data, b.data, 32 * (ita + 1));

@fn panda::BitsetVariableSize::unionContains(a, b, inner, max) key "BitsetVariableSize::unionContains("
@requires a.data.len() == b.data.len() && a.data.len() == inner.data.len() && max >= 1 && words(max) <= a.data.len()
@pure ucontains(a.data, b.data, inner.data, 32 * words(max))
@entry lemma_ucontains(inner.data, a.data, b.data, 32 * words(max));
@loop 0
@invariant [words so far] i <= words(max) && subset_to(inner.data, union_words(a.data, b.data), 32 * i)
@start lemma_subset_step(inner.data, union_words(a.data, b.data), i as int); if !subset_to(inner.data, union_words(a.data, b.data), 32 * (i + 1)) { assert(!subset_to(inner.data, union_words(a.data, b.data), 32 * words(max))); }
