@unit relation
@tu src/input_common.cpp
@mode Z
@native int
@streams
@lib prelude string stream relation
@import stream row_ops@int

@fn panda::input::isRelation(stream)
@ensures [a relation operator is next] s_good(old(stream)) ==> result == is_rel(old(stream).s, old(stream).p)
@ensures [nothing is consumed] s_good(old(stream)) ==> stream == old(stream)
@ensures [nothing in a failed stream] !s_good(old(stream)) ==> !result && stream.f

@fn panda::input::relationOperator(stream)
@throws
@requires s_good(stream)
@ensures [the operator] rel_at(old(stream).s, old(stream).p).is_some() && result == rel_at(old(stream).s, old(stream).p).unwrap().0
@ensures [it is consumed] stream == moved(old(stream), rel_at(old(stream).s, old(stream).p).unwrap().1)
@exc [refused only if there is none] rel_at(old(stream).s, old(stream).p).is_none()

@fn panda::input::normalize(row, relation)
@ensures [in the direction of <=] result =~= (if relation == 0 { vscale(row, -1) } else { row })

@fn panda::input::toInt(string)
@throws
@ensures [the number] to_int(string).is_some() && result == to_int(string).unwrap()
@exc [refused only if it is none] to_int(string).is_none()
