@unit consistency
@tu src/input_consistency.cpp
@mode Z
@native int
@lib prelude consistency

@foreach K in std::vector<std::vector<int std::vector<std::vector<std::vector
@fn rangeDimensionCheck(range, dimension, message) key "rangeDimensionCheck<$K$"
@throws
@ensures [every entry has the dimension] all_len(range, dimension as int)
@exc [raises only if some entry has another dimension] !all_len(range, dimension as int)
@loop 0
@invariant [the dimension so far] forall|i: int| 0 <= i < $k ==> (#[trigger] range[i]).len() == dimension
@endfor

@fn panda::input::implementation::checkConsistency(conv) key "checkConsistency(const std::vector<std::vector<int, std::allocator<int>>, std::allocator<std::vector<int, std::allocator<int>>>> &)"
@throws
@ensures [not empty, one dimension] conv.len() > 0 && all_len(conv, conv[0].len() as int)
@exc [raises only if empty or of several dimensions] conv.len() == 0 || !all_len(conv, conv[0].len() as int)

@fn panda::input::implementation::checkConsistency(inequalities, names, dimension) key "#3"
@throws
@ensures [not empty, one dimension, the dimension given, one name for every coordinate] consistent_ieqs(inequalities, names, dimension)
@exc [raises only if not consistent] !consistent_ieqs(inequalities, names, dimension)

@fn panda::input::implementation::checkConsistency(conv, cone, inequalities, names, maps, dimension) key "#6"
@throws
@ensures [not empty, one dimension, the dimension given, one name for every coordinate] consistent_all(conv, cone, inequalities, names, maps, dimension)
@exc [raises only if not consistent] !consistent_all(conv, cone, inequalities, names, maps, dimension)

@fn panda::input::implementation::checkConsistency(conv, cone, names, maps, dimension) key "#5"
@throws
@ensures [not empty, one dimension, the dimension given, one name for every coordinate] consistent_all(conv, cone, Seq::<Seq<int>>::empty(), names, maps, dimension)
@exc [raises only if not consistent] !consistent_all(conv, cone, Seq::<Seq<int>>::empty(), names, maps, dimension)
