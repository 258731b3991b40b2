@unit names
@tu src/input_common.cpp
@mode Z
@native int
@streams
@lib prelude string stream names

@fn panda::input::containsNames(names, stream)
@requires names.len() > 0 && s_good(stream)
@ensures [whether a name occurs] result == has_names(names, old(stream).s, old(stream).p)
@ensures [nothing is consumed] stream == old(stream)
@loop 0
@before ghost P = stream.p; ghost T = stream.s.push(-1i8); ghost R = has_names(names, stream.s, P); ghost Q = stream.p;
@invariant [what is left decides] stream.s == old(stream).s && (stream.f ==> stream.p == stream.s.len()) && Q == stream.p + (if stream.f { 1int } else { 0int }) && counter == Q - P && (if stream.f || counter >= 2000 { !R } else { R == name_scan(names, T, P, Q, Q) })
@decreases T.len() - Q
@start ghost C = Q;
@loop 1
@invariant [the word so far] stream.s == old(stream).s && (stream.f ==> stream.p == stream.s.len()) && Q == stream.p + (if stream.f { 1int } else { 0int }) && 0 <= C <= Q && counter == Q - P && word =~= T.subrange(C, Q) && 0 <= position <= names.len()
@invariant [the word is over] position == names.len() ==> C < Q && (if stream.f || counter >= 2000 { !R } else { R == name_scan(names, T, P, Q, Q) })
@invariant [the word goes on] position != names.len() ==> (if stream.f { !R } else { R == name_scan(names, T, P, C, Q) })
@decreases T.len() - Q
@end Q = Q + 1; assert(word =~= T.subrange(C, Q));
  assert(!one_of(names, word)) by { if one_of(names, word) { let i = choose|i: int| 0 <= i < names.len() && #[trigger] names[i] =~= word; assert(names[i] == word); } }
  assert(name_prefix(names, word) <==> position < names.len()) by {
    if name_prefix(names, word) { let i = choose|i: int| 0 <= i < names.len() && word.len() <= (#[trigger] names[i]).len() && names[i].take(word.len() as int) =~= word; assert(str_sub(names[i], 0, word.len() as int) =~= names[i].take(word.len() as int)); }
    if position < names.len() { assert(str_sub(names[position], 0, word.len() as int) =~= names[position].take(word.len() as int)); } }
  assert(R == name_scan(names, T, P, C, Q - 1)); assert(0 <= C <= Q - 1 < T.len()); assert(R == (if name_prefix(names, word) { name_scan(names, T, P, C, Q) } else if Q >= P + 2000 { false } else { name_scan(names, T, P, Q, Q) })); assert(stream.f ==> !name_scan(names, T, P, C, Q) && !name_scan(names, T, P, Q, Q));
