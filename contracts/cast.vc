@unit cast
@tu src/cast.cpp
@mode Z
@lib prelude

@fn panda::cast(input) key "cast<short, int, 0>(const std::vector<int,"
@throws
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@exc [refused only if an entry does not fit] exists|p: int| 0 <= p < input.len() && !(i16::MIN <= (#[trigger] input[p]) as int <= i16::MAX)
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<short, int, 0>(const std::vector<std::vector<int,"
@throws
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@exc [refused only if an entry does not fit] exists|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() && !(i16::MIN <= (#[trigger] input[q][p]) as int <= i16::MAX)
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<int, short, 0>(const std::vector<short,"
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<int, short, 0>(const std::vector<std::vector<short,"
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<long, int, 0>(const std::vector<int,"
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<long, int, 0>(const std::vector<std::vector<int,"
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<int, long, 0>(const std::vector<long,"
@throws
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@exc [refused only if an entry does not fit] exists|p: int| 0 <= p < input.len() && !(i32::MIN <= (#[trigger] input[p]) as int <= i32::MAX)
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<int, long, 0>(const std::vector<std::vector<long,"
@throws
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@exc [refused only if an entry does not fit] exists|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() && !(i32::MIN <= (#[trigger] input[q][p]) as int <= i32::MAX)
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<panda::BigInteger, int, 0>(const std::vector<int,"
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<panda::BigInteger, int, 0>(const std::vector<std::vector<int,"
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<int, panda::BigInteger, 0>(const std::vector<panda::BigInteger,"
@throws
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@exc [refused only if an entry does not fit] exists|p: int| 0 <= p < input.len() && !(i32::MIN <= (#[trigger] input[p]) as int <= i32::MAX)
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<int, panda::BigInteger, 0>(const std::vector<std::vector<panda::BigInteger,"
@throws
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@exc [refused only if an entry does not fit] exists|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() && !(i32::MIN <= (#[trigger] input[q][p]) as int <= i32::MAX)
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<panda::SafeInteger, int, 0>(const std::vector<int,"
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<panda::SafeInteger, int, 0>(const std::vector<std::vector<int,"
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int

@fn panda::cast(input) key "cast<int, panda::SafeInteger, 0>(const std::vector<panda::SafeInteger,"
@throws
@ensures [same length] result.len() == input.len()
@ensures [same values] forall|p: int| 0 <= p < input.len() ==> #[trigger] result[p] as int == input[p] as int
@exc [refused only if an entry does not fit] exists|p: int| 0 <= p < input.len() && !(i32::MIN <= (#[trigger] input[p]) as int <= i32::MAX)
@loop 0
@invariant [entries so far] output.len() == $k && forall|p: int| 0 <= p < $k ==> #[trigger] output[p] as int == input[p] as int

@fn panda::cast(input) key "cast<int, panda::SafeInteger, 0>(const std::vector<std::vector<panda::SafeInteger,"
@throws
@ensures [same number of rows] result.len() == input.len()
@ensures [same row lengths] forall|q: int| 0 <= q < input.len() ==> (#[trigger] result[q]).len() == input[q].len()
@ensures [same values] forall|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() ==> #[trigger] result[q][p] as int == input[q][p] as int
@exc [refused only if an entry does not fit] exists|q: int, p: int| 0 <= q < input.len() && 0 <= p < input[q].len() && !(i32::MIN <= (#[trigger] input[q][p]) as int <= i32::MAX)
@loop 0
@invariant [row lengths so far] output.len() == $k && forall|q: int| 0 <= q < $k ==> (#[trigger] output[q]).len() == input[q].len()
@invariant [rows so far] forall|q: int, p: int| 0 <= q < $k && 0 <= p < input[q].len() ==> #[trigger] output[q][p] as int == input[q][p] as int
