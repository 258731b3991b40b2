@unit input_map
@tu src/input_map.cpp
@mode Z
@lib string input_map
@import map_apply
@open panda::input::toInt panda::input::skipWhitespace panda::input::skipEndOfLine panda::input::isEndOfLine panda::input::isEndOfFile panda::input::trimWhitespace panda::input::firstWord panda::peekLine panda::input::implementation::isKeyword panda::input::implementation::isKeywordMaps panda::input::implementation::isKeywordEnd

@fn extractFactor(token, position)
@throws
@requires position < token.len()
@ensures [behind the factor] (position == u64::MAX || old(position) <= position <= token.len()) && (position == old(position) ==> !signs_digits().contains(token[position as int]))
@entry lemma_first_of(token, signs_digits(), position as int, true); if position + 1 <= token.len() { lemma_first_of(token, digits(), position as int + 1, false); } lemma_first_of(token, digits(), position as int, false); lemma_signs_digits(); assert(signs_digits() =~= seq![43i8, 45i8, 48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8]); assert(digits() =~= seq![48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8]);

@fn extractName(token, position)
@requires position == u64::MAX || position <= token.len()
@ensures [behind the name] position == u64::MAX || old(position) <= position <= token.len()
@ensures [a name unless a sign or a digit follows] position == old(position) ==> position == u64::MAX || position == token.len() || signs_digits().contains(token[position as int])
@entry if position <= token.len() { lemma_first_of(token, signs_digits(), position as int, true); lemma_first_of(token, signs(), position as int, true); } lemma_signs_digits(); assert(signs_digits() =~= seq![43i8, 45i8, 48i8, 49i8, 50i8, 51i8, 52i8, 53i8, 54i8, 55i8, 56i8, 57i8]); assert(signs() =~= seq![43i8, 45i8]);

@fn image(token, names)
@throws
@ensures [refers to coordinates only] refers(result, names.len() as int + 1)
@loop 0
@invariant [terms so far] refers(result, names.len() as int + 1) && (position == u64::MAX || position <= token.len())
@decreases if position == u64::MAX { 0 } else { token.len() - position }

@fn map(stream, names) key "map(std::basic_istream"
@throws
@opt nodec
@ensures [one image for every name] result.len() == names.len() && images(result, names.len() as int + 1)
@loop 0
@invariant [images so far] result.len() == names.len() && index <= result.len() && images(result, names.len() as int + 1)

@fn panda::input::implementation::maps(stream, names)
@throws
@opt nodec
@ensures [maps of coordinates] are_maps(result, names.len() as int + 1)
@loop 0
@invariant [maps so far] are_maps(maps, names.len() as int + 1)
