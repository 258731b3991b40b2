pub open spec fn filled(rows: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).len() > 0 }
