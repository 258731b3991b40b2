@unit map_apply
@tu src/algorithm_map_operations.cpp
@mode Z
@lib maps
@import row_ops

@fn applyTerm(input, out, index, term, tag) key "const std::vector<panda::BigInteger, std::allocator<panda::BigInteger>> &,std::vector<panda::BigInteger, std::allocator<panda::BigInteger>> &,const unsigned long,const std::pair<unsigned long, int> &,panda::tag::facet)"
@requires index < input.len() && term.0 < out.len()
@ensures [term added] out =~= old(out).update(term.0 as int, old(out)[term.0 as int] + term.1 * input[index as int])
@opt keepsize

@fn applyTerm(input, out, index, term, tag) key "const std::vector<panda::BigInteger, std::allocator<panda::BigInteger>> &,std::vector<panda::BigInteger, std::allocator<panda::BigInteger>> &,const unsigned long,const std::pair<unsigned long, int> &,panda::tag::vertex)"
@requires index < out.len() && term.0 < input.len()
@ensures [term added] out =~= old(out).update(index as int, old(out)[index as int] + term.1 * input[term.0 as int])
@opt keepsize

@fn panda::algorithm::apply(map, row, tag) key "apply<panda::BigInteger, panda::tag::facet>"
@requires is_map(map, row.len() as int)
@ensures [the reduced image] result == primitive(facet_image(map, row))
@ensures [the image under the transposed map, up to a positive factor, primitive or zero] adjoint(facet_image(map, row), map, row) && reduced(result, facet_image(map, row))
@loop 0
@invariant [forms so far] i <= map.len() && result.len() == row.len() && result =~= facet_upto(map, row, i as int)
@start assert(in_range(map[i as int], row.len() as int));
@loop 1
@invariant [terms so far] result.len() == row.len() && result =~= add_form(entry.take($k as int), row[i as int], facet_upto(map, row, i as int))
@end assert(entry.take($k as int).drop_last() =~= entry.take($k - 1));
@after assert(entry.take(entry.len() as int) =~= entry);
@return let raw = facet_image(map, row); lemma_facet_image(map, row); lemma_reduced(raw); assert(result =~= primitive(raw));

@fn panda::algorithm::apply(map, row, tag) key "apply<panda::BigInteger, panda::tag::vertex>"
@requires is_map(map, row.len() as int)
@ensures [the reduced image] result == primitive(vertex_image(map, row))
@ensures [the image under the map, up to a positive factor, primitive or zero] reduced(result, vertex_image(map, row))
@loop 0
@invariant [forms so far] i <= map.len() && result.len() == row.len() && result =~= Seq::new(row.len(), |p: int| if p < i { form(map[p], row) } else { 0 })
@start assert(in_range(map[i as int], row.len() as int));
@after assert(result =~= vertex_image(map, row));
@loop 1
@invariant [terms so far] result.len() == row.len() && result =~= Seq::new(row.len(), |p: int| if p < i { form(map[p], row) } else if p == i { form(entry.take($k as int), row) } else { 0 })
@end assert(entry.take($k as int).drop_last() =~= entry.take($k - 1));
@after assert(entry.take(entry.len() as int) =~= entry);
@return let raw = vertex_image(map, row); lemma_reduced(raw); assert(result =~= primitive(raw));
