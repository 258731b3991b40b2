// every entry has the length n
pub open spec fn all_len<T>(s: Seq<Seq<T>>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == n }
// names and dimension are optional; rows carry one entry more than there are coordinates
pub open spec fn header_fits(names: Seq<Seq<i8>>, dimension: u64, n: int) -> bool { (names.len() > 0 ==> names.len() + 1 == n) && (dimension != u64::MAX ==> n == dimension + 1) }
pub open spec fn consistent_ieqs(rows: Seq<Seq<int>>, names: Seq<Seq<i8>>, dimension: u64) -> bool { rows.len() > 0 && all_len(rows, rows[0].len() as int) && header_fits(names, dimension, rows[0].len() as int) }
pub open spec fn width(conv: Seq<Seq<int>>, cone: Seq<Seq<int>>) -> int { if conv.len() > 0 { conv[0].len() as int } else { cone[0].len() as int } }
pub open spec fn consistent_all(conv: Seq<Seq<int>>, cone: Seq<Seq<int>>, ieqs: Seq<Seq<int>>, names: Seq<Seq<i8>>, maps: Seq<Seq<Seq<(u64, i32)>>>, dimension: u64) -> bool {
  &&& conv.len() > 0 || cone.len() > 0
  &&& all_len(conv, width(conv, cone)) && all_len(cone, width(conv, cone)) && all_len(ieqs, width(conv, cone)) && all_len(maps, width(conv, cone))
  &&& header_fits(names, dimension, width(conv, cone))
}
