@unit map_normalize
@tu src/algorithm_map_operations.cpp
@mode Z
@fits
@lib sorting mapnorm
@import map_apply

@fn indices(equations) key "indices<panda::BigInteger>"
@requires forall|k: int| 0 <= k < equations.len() ==> lead(#[trigger] equations[k]) < equations[k].len()
@ensures [the leading positions] lead_indices(result, equations)
@loop 0
@invariant [leading positions so far] indices.len() == $k && forall|q: int| 0 <= q < $k ==> #[trigger] indices[q] == lead(equations[q])

@fn eliminateZeroCoefficients(map, indices)
@requires forall|k: int| 0 <= k < indices.len() ==> #[trigger] indices[k] < map.len()
@ensures [the indexed images cleared, the others unchanged] cleared(map, old(map), indices, indices.len() as int)
@loop 0
@invariant [cleared so far] cleared(map, old(map), indices, $k)

@fn containsIndex(map, index)
@ensures [whether some image has a term with the index] result == !absent(map, index as int)
@loop 0
@invariant [no image so far] forall|i: int| 0 <= i < $k ==> no_term(#[trigger] map[i], index as int)
@loop 1
@invariant [no term so far] forall|q: int| 0 <= q < $k ==> (#[trigger] image[q]).0 != index

@fn subtractEquation(map, index, equation) key "subtractEquation<panda::BigInteger>"
@requires is_map(map, equation.len() as int) && index == lead(equation) && index < equation.len()
@ensures [no term on the leading coordinate; a positive multiple of the old map on the solutions of the equation] substituted(map, old(map), equation, index as int)
@entry lemma_lead(equation); lemma_unchanged(map, seq![equation]);
@loop 0
@before assert(sign * equation[index as int] > 0) by (nonlinear_arith) requires sign == (if equation[index as int] < 0 { -1int } else { 1int }), equation[index as int] != 0;
@invariant [images so far] sign * equation[index as int] > 0 && subst_upto(map, old(map), equation, index as int, sign as int, $k)
@after lemma_substituted(map, old(map), equation, index as int, sign as int);
@loop 1
@before lemma_part_init(image, equation, index as int, sign as int);
@invariant [terms so far] image == old(map)[$k0] && part(new_image, image, $k, equation, index as int, sign as int)
@end if image[$k - 1].0 != index { let s_ = sign as int; let e_ = equation[index as int]; let t_ = image[$k - 1].1 as int; assert(t_ * s_ * e_ == new_image[new_image.len() - 1].1); lemma_part_keep(start(new_image), image, $k - 1, equation, index as int, s_, new_image); }

@loop 2
@before lemma_part2_init(new_image, image, $k1, -image[$k1].1 * sign, equation, index as int, sign as int);
@after lemma_part_sub(pre(new_image), image, $k1, -image[$k1].1 * sign, equation, index as int, sign as int, new_image);
@invariant [coefficients so far] index < j <= equation.len() && part2(new_image, pre(new_image), image, -image[$k1].1 * sign, equation, index as int, j as int)
@end lemma_part2_step(start(new_image), pre(new_image), image, -image[$k1].1 * sign, equation, index as int, j - 1, new_image);

@fn subtractEquations(map, indices, equations) key "subtractEquations<panda::BigInteger>"
@requires is_map(map, map.len() as int) && echelon(equations, map.len() as int) && lead_indices(indices, equations)
@ensures [no term on the leading coordinates; a positive multiple of the old map on the solutions of the equations] subst_eqs(map, old(map), equations, equations.len() as int)
@entry lemma_unchanged(map, equations);
@loop 0
@invariant [equations so far] i <= indices.len() && subst_eqs(map, old(map), equations, i as int)
@start assert(indices[i as int] == lead(equations[i as int])); assert(equations[i as int].len() == map.len()); lemma_lead(equations[i as int]);
@end lemma_subst_step(map, start(map), old(map), equations, i - 1);

@fn simplify(map)
@ensures [every image sorted, each index once, the same form] all_tidy(map, old(map))
@loop 0
@invariant [images so far] map.len() == old(map).len() && forall|q: int| 0 <= q < map.len() ==> if q < $k { tidy(#[trigger] map[q], old(map)[q]) } else { map[q] == old(map)[q] }
@loop 1
@before lemma_tidy_init(old(map)[$k0], image);
@invariant [sorted; no index twice up to here; the same form] i <= image.len() && tidying(image, old(map)[$k0], i as int) && map.len() == old(map).len() && forall|q: int| 0 <= q < map.len() && q != $k0 ==> if q < $k0 { tidy(#[trigger] map[q], old(map)[q]) } else { map[q] == old(map)[q] }
@decreases image.len() - i
@end let w_ = start(image); let i_ = start(i) as int; let o_ = old(map)[$k0]; if w_[i_].0 == w_[i_ + 1].0 { let f_ = (w_[i_].1 + w_[i_ + 1].1) as i32; let u_ = w_.update(i_, (w_[i_].0, f_)).remove(i_ + 1); lemma_tidy_merge(w_, o_, i_, f_, u_); if f_ == 0 { lemma_tidy_drop(u_, o_, i_, image); } } else { lemma_tidy_next(w_, o_, i_); }
@after assert(tidy(image, old(map)[$k0]));

@fn normalizeMap(map, equations) key "normalizeMap<panda::BigInteger>"
@requires is_map(map, map.len() as int) && echelon(equations, map.len() as int)
@ensures [no eliminated coordinate, no index twice, the same action on normalised rows up to a positive factor] normal_map(result, old(map), equations)
@call eliminateZeroCoefficients 0 before assert(forall|k: int| 0 <= k < equations.len() ==> 0 <= lead(#[trigger] equations[k]) < map.len());
@call eliminateZeroCoefficients 0 after ghost C0 = map; assert forall|i: int| 0 <= i < map.len() implies in_range(#[trigger] map[i], map.len() as int) by { assert(in_range(old(map)[i], map.len() as int)); }
@call subtractEquations 0 after ghost B = map;
@return lemma_normal_map(old(map), equations, indices, C0, B, result);

@fn panda::algorithm::normalize(maps, equations) key "normalize<panda::BigInteger>(std::vector<std::vector<std::vector"
@requires forall|k: int| 0 <= k < maps.len() ==> is_map(#[trigger] maps[k], maps[k].len() as int) && echelon(equations, maps[k].len() as int)
@ensures [every map normalised] result.len() == old(maps).len() && forall|k: int| 0 <= k < result.len() ==> normal_map(#[trigger] result[k], old(maps)[k], equations)
@loop 0
@invariant [normalised so far] maps.len() == old(maps).len() && forall|q: int| 0 <= q < maps.len() ==> if q < $k { normal_map(#[trigger] maps[q], old(maps)[q], equations) } else { maps[q] == old(maps)[q] }
@start assert(maps[$k] == old(maps)[$k]); assert(is_map(maps[$k], maps[$k].len() as int));
@end assert(normal_map(maps[$k - 1], old(maps)[$k - 1], equations));
