@unit list
@tu src/list.cpp
@tu src/job_manager.cpp
@shared panda::JobManager
@mode Z
@lib prelude list
@ignored index
@monitor panda::List mutex workers rows iterators counter
@ghostfield printed Seq<Seq<int>> = Seq::<Seq<int>>::empty()
@ghostfield given Seq<Seq<int>> = Seq::<Seq<int>>::empty()
@inv list_inv(this.rows, this.iterators, this.printed, this.given)
@rely acq.names == this.names && list_rely(acq.rows, acq.printed, acq.given, this.rows, this.printed, this.given)
@done this.workers == 0 && this.iterators.len() == 0
@update given = if acq.iterators.len() > this.iterators.len() && acq.iterators[0].is_some() { acq.given.push(acq.iterators[0].unwrap()) } else { acq.given }
@onrelease if acq.rows =~= this.rows { } if this.iterators.len() > 0 && this.iterators.drop_last() =~= acq.iterators { } lemma_release(acq.rows, acq.iterators, acq.printed, acq.given, this.rows, this.iterators, this.printed, this.given);

@foreach T in facet vertex
@fn panda::List::put(row) key "panda::BigInteger, panda::tag::$T$>::put(const std::vector<panda::BigInteger,"
@requires row.len() > 0
@ensures [the row is in the list] this.rows.contains(row)
@ensures [nothing other threads rely on is undone] old(this).names == this.names && list_rely(old(this).rows, old(this).printed, old(this).given, this.rows, this.printed, this.given)
@release [a new row is printed and waits to be handed out, a known one is not] acq.rows.contains(row) ==> this.rows == acq.rows && this.iterators == acq.iterators && this.printed == acq.printed
@release [a new row is printed and waits to be handed out, a known one is not] !acq.rows.contains(row) ==> this.iterators == acq.iterators.push(Some(row)) && this.printed == acq.printed.push(row)
@release [a waiting caller is woken for a new row] this.iterators.len() > acq.iterators.len() ==> waked_one > 0 || waked_all
@release [jobs in progress are unchanged] this.workers == acq.workers

@fn panda::List::put(matrix) key "panda::BigInteger, panda::tag::$T$>::put(const std::vector<std::vector<"
@requires forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() > 0
@ensures [all rows are in the list] forall|i: int| 0 <= i < matrix.len() ==> this.rows.contains(#[trigger] matrix[i])
@ensures [nothing other threads rely on is undone] old(this).names == this.names && list_rely(old(this).rows, old(this).printed, old(this).given, this.rows, this.printed, this.given)
@loop 0
@invariant [rows so far] forall|i: int| 0 <= i < $k ==> this.rows.contains(#[trigger] matrix[i])
@invariant [nothing undone] old(this).names == this.names && list_rely(old(this).rows, old(this).printed, old(this).given, this.rows, this.printed, this.given)
@invariant [not locked] true
@release [a job is done once all its rows are in the list] acq.workers > 0 ==> this.workers == acq.workers - 1 && forall|i: int| 0 <= i < matrix.len() ==> this.rows.contains(#[trigger] matrix[i])
@release [nothing else changes] this.iterators == acq.iterators && this.rows == acq.rows && this.printed == acq.printed

@fn panda::List::get() key "panda::BigInteger, panda::tag::$T$>::get()"
@ensures [what is handed out has been put, was printed, and is handed out once] result.len() > 0 ==> this.given.len() > old(this).given.len() && this.given.last() == result && this.rows.contains(result) && this.printed.contains(result)
@ensures [nothing other threads rely on is undone] old(this).names == this.names && list_rely(old(this).rows, old(this).printed, old(this).given, this.rows, this.printed, this.given)
@release [nothing is printed, no row is added] this.printed == acq.printed && forall|r: Seq<int>| #[trigger] this.rows.contains(r) ==> r.len() == 0 || acq.rows.contains(r)
@release [the end is announced only when no job was in progress and none was waiting; all callers are woken] this.iterators.len() > acq.iterators.len() ==> was_done && waked_all && this.workers == acq.workers && this.iterators == acq.iterators.push(Some(Seq::<int>::empty()))
@release [a job taken is counted] this.iterators.len() < acq.iterators.len() ==> this.iterators == acq.iterators.skip(1) && acq.workers < u64::MAX ==> this.workers == acq.workers + 1
@endfor

@foreach T in facet vertex
@fn panda::JobManager::put(row) key "panda::BigInteger, panda::tag::$T$>::put(const std::vector<panda::BigInteger,"
@requires row.len() > 0
@ensures [the row is in the list] this.rows.rows.contains(row)
@ensures [nothing other threads rely on is undone] old(this).rows.names == this.rows.names && list_rely(old(this).rows.rows, old(this).rows.printed, old(this).rows.given, this.rows.rows, this.rows.printed, this.rows.given)

@fn panda::JobManager::put(matrix) key "panda::BigInteger, panda::tag::$T$>::put(const std::vector<std::vector<"
@requires forall|i: int| 0 <= i < matrix.len() ==> (#[trigger] matrix[i]).len() > 0
@ensures [all rows are in the list] forall|i: int| 0 <= i < matrix.len() ==> this.rows.rows.contains(#[trigger] matrix[i])
@ensures [nothing other threads rely on is undone] old(this).rows.names == this.rows.names && list_rely(old(this).rows.rows, old(this).rows.printed, old(this).rows.given, this.rows.rows, this.rows.printed, this.rows.given)

@fn panda::JobManager::get() key "panda::BigInteger, panda::tag::$T$>::get()"
@ensures [what is handed out has been put, was printed, and is handed out once] result.len() > 0 ==> this.rows.given.len() > old(this).rows.given.len() && this.rows.given.last() == result && this.rows.rows.contains(result) && this.rows.printed.contains(result)
@ensures [nothing other threads rely on is undone] old(this).rows.names == this.rows.names && list_rely(old(this).rows.rows, old(this).rows.printed, old(this).rows.given, this.rows.rows, this.rows.printed, this.rows.given)
@endfor
