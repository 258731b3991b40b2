pub open spec fn neg_unit(n: int, j: int) -> Seq<int> { Seq::new(n as nat, |k: int| if k == j { -1int } else { 0int }) }
