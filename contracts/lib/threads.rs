// a number of threads: a positive integer, possibly between white space, and nothing else
pub open spec fn threads_named(x: Seq<i8>) -> Option<int> { match int_at(x, 0) { None => None, Some((v, r)) => if v > 0 && skip_space(x, r) >= x.len() { Some(v) } else { None } } }
pub open spec fn threads_asked(o: Option_, n: int) -> bool { match o { Option_::Nothing => n > 0, Option_::Value(x) => threads_named(x) == Some(n), Option_::Malformed => false } }
pub open spec fn threads_refused(o: Option_) -> bool { match o { Option_::Nothing => false, Option_::Value(x) => threads_named(x).is_none(), Option_::Malformed => true } }
