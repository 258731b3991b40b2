// the rows that wait to be handed out (the empty row announces the end)
pub open spec fn live(p: Seq<Option<Seq<int>>>) -> Seq<Seq<int>>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() }
    else if p.last().is_some() && p.last().unwrap().len() > 0 { live(p.drop_last()).push(p.last().unwrap()) }
    else { live(p.drop_last()) }
}

// every row was printed exactly once; it has been handed out, or waits; the ones that wait are in the list
pub open spec fn list_inv(rows: Set<Seq<int>>, pend: Seq<Option<Seq<int>>>, printed: Seq<Seq<int>>, given: Seq<Seq<int>>) -> bool {
    &&& printed == given + live(pend)
    &&& printed.no_duplicates()
    &&& forall|r: Seq<int>| r.len() > 0 ==> (#[trigger] rows.contains(r) <==> printed.contains(r))
    &&& forall|i: int| 0 <= i < printed.len() ==> (#[trigger] printed[i]).len() > 0
    &&& forall|i: int| 0 <= i < pend.len() ==> (#[trigger] pend[i]).is_some() && rows.contains(pend[i].unwrap())
}

// what one thread may do while another one is at work: rows are added, printed, handed out; never taken back
pub open spec fn list_rely(rows: Set<Seq<int>>, printed: Seq<Seq<int>>, given: Seq<Seq<int>>, rows2: Set<Seq<int>>, printed2: Seq<Seq<int>>, given2: Seq<Seq<int>>) -> bool {
    &&& rows.subset_of(rows2)
    &&& printed.is_prefix_of(printed2)
    &&& given.is_prefix_of(given2)
}

pub proof fn lemma_live_front(p: Seq<Option<Seq<int>>>)
    requires p.len() > 0,
    ensures live(p) == (if p[0].is_some() && p[0].unwrap().len() > 0 { seq![p[0].unwrap()] } else { Seq::empty() }) + live(p.skip(1)),
    decreases p.len(),
{
    if p.len() == 1 {
        assert(p.drop_last() =~= Seq::empty());
        assert(p.skip(1) =~= Seq::empty());
        assert(live(p) =~= (if p[0].is_some() && p[0].unwrap().len() > 0 { seq![p[0].unwrap()] } else { Seq::empty() }) + live(p.skip(1)));
    } else {
        lemma_live_front(p.drop_last());
        assert(p.drop_last().skip(1) =~= p.skip(1).drop_last());
        assert(p.skip(1).last() == p.last());
        assert(live(p) =~= (if p[0].is_some() && p[0].unwrap().len() > 0 { seq![p[0].unwrap()] } else { Seq::empty() }) + live(p.skip(1)));
    }
}

pub proof fn lemma_release(rows: Set<Seq<int>>, pend: Seq<Option<Seq<int>>>, printed: Seq<Seq<int>>, given: Seq<Seq<int>>,
    rows2: Set<Seq<int>>, pend2: Seq<Option<Seq<int>>>, printed2: Seq<Seq<int>>, given2: Seq<Seq<int>>)
    requires list_inv(rows, pend, printed, given),
    ensures
        pend2.len() > 0 && pend == pend2.drop_last() && pend2.last().is_some() && pend2.last().unwrap().len() > 0 && !rows.contains(pend2.last().unwrap())
            && printed2 == printed.push(pend2.last().unwrap()) && rows2 == rows.insert(pend2.last().unwrap()) && given2 == given ==> list_inv(rows2, pend2, printed2, given2),
        pend2.len() > 0 && pend == pend2.drop_last() && pend2.last().is_some() && pend2.last().unwrap().len() == 0
            && printed2 == printed && rows2 == rows.insert(pend2.last().unwrap()) && given2 == given ==> list_inv(rows2, pend2, printed2, given2),
        pend.len() > 0 && pend2 == pend.skip(1) && pend[0].unwrap().len() > 0 && printed2 == printed && rows2 == rows && given2 == given.push(pend[0].unwrap()) ==> list_inv(rows2, pend2, printed2, given2),
{
    if pend2.len() > 0 && pend == pend2.drop_last() && pend2.last().is_some() {
        let r = pend2.last().unwrap();
        if r.len() > 0 && !rows.contains(r) && printed2 == printed.push(r) && rows2 == rows.insert(r) && given2 == given {
            assert(given2 + live(pend2) =~= printed2);
            assert(!printed.contains(r));
            assert forall|x: Seq<int>| x.len() > 0 implies (#[trigger] rows2.contains(x) <==> printed2.contains(x)) by {
                if x == r { assert(printed2[printed.len() as int] == r); }
                if printed.contains(x) { let k = choose|k: int| 0 <= k < printed.len() && printed[k] == x; assert(printed2[k] == x); }
                if printed2.contains(x) && x != r { let k = choose|k: int| 0 <= k < printed2.len() && printed2[k] == x; assert(printed[k] == x); }
            }
            assert forall|i: int| 0 <= i < pend2.len() implies (#[trigger] pend2[i]).is_some() && rows2.contains(pend2[i].unwrap()) by {
                if i < pend.len() { assert(pend[i] == pend2[i]); }
            }
        }
        if r.len() == 0 && printed2 == printed && rows2 == rows.insert(r) && given2 == given {
            assert(live(pend2) == live(pend));
            assert forall|i: int| 0 <= i < pend2.len() implies (#[trigger] pend2[i]).is_some() && rows2.contains(pend2[i].unwrap()) by {
                if i < pend.len() { assert(pend[i] == pend2[i]); }
            }
        }
    }
    if pend.len() > 0 && pend2 == pend.skip(1) && pend[0].unwrap().len() > 0 && printed2 == printed && rows2 == rows && given2 == given.push(pend[0].unwrap()) {
        lemma_live_front(pend);
        assert(given2 + live(pend2) =~= given + live(pend));
        assert forall|i: int| 0 <= i < pend2.len() implies (#[trigger] pend2[i]).is_some() && rows2.contains(pend2[i].unwrap()) by {
            assert(pend2[i] == pend[i + 1]);
        }
    }
}
