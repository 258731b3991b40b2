// strings of the C library: the sequence of characters before the null character
pub open spec fn c_take(s: Seq<i8>, n: int) -> Seq<i8> { if s.len() <= n { s } else { s.take(n) } }
pub uninterp spec fn c_cmp_raw(a: Seq<i8>, b: Seq<i8>, n: int) -> i32;
// the value of strcmp: zero for equal strings, some other value otherwise
pub open spec fn c_strcmp(a: Seq<i8>, b: Seq<i8>) -> i32 { if a =~= b { 0i32 } else if c_cmp_raw(a, b, -1) == 0 { 1i32 } else { c_cmp_raw(a, b, -1) } }
pub open spec fn c_strncmp(a: Seq<i8>, b: Seq<i8>, n: int) -> i32 { if c_take(a, n) =~= c_take(b, n) { 0i32 } else if c_cmp_raw(a, b, n) == 0 { 1i32 } else { c_cmp_raw(a, b, n) } }
pub open spec fn starts(s: Seq<i8>, p: Seq<i8>) -> bool { s.len() >= p.len() && s.take(p.len() as int) =~= p }
// std::string::c_str(): up to the first null character
pub open spec fn c_str_(s: Seq<i8>) -> Seq<i8> { s.take(find_first(s, |c: i8| c == 0i8)) }
