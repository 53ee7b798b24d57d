// backlog.rs: handing out what was received too early.
%use history.vx
%raw
/// The queues `values_mut` has still to go through, assumed to be all of the
/// map's values in some order.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxValuesMut<'a, T> { _p: core::marker::PhantomData<&'a mut T> }
impl<'a, T> VxValuesMut<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && *(r->Some_0) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
impl<T> ReplicaIdMap<T> {
    #[verifier::external_body]
    pub fn values_mut<'a>(&'a mut self) -> (r: VxValuesMut<'a, T>)
        ensures exists|ks: Seq<u64>| #[trigger] values_of(old(self)@, ks, r.rest()),
    { unimplemented!() }
}
pub open spec fn values_of<T>(m: Map<u64, T>, ks: Seq<u64>, vs: Seq<T>) -> bool {
    &&& ks.no_duplicates()
    &&& ks.len() == vs.len()
    &&& forall|k: u64| m.contains_key(k) == #[trigger] ks.contains(k)
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(ks[i]) && m[ks[i]] == #[trigger] vs[i]
}
/// The transmute of `from_replica`: while the backlog is gone through, the
/// replica and its backlog are two things (no contract of what `next` calls
/// depends on the replica's backlog).
#[verifier::external_body]
pub fn vx_lend<'a>(r: &mut Replica) -> (b: &'a mut Backlog)
    ensures *b == old(r).backlog, *final(r) == *old(r),
{ unimplemented!() }
%file backlog.rs
%alias VecDeque VxDeque
%alias ReplicaIdMapValuesMut VxValuesMut
%item struct BackloggedDeletions
%item struct BackloggedInsertions
%raw
pub type InsQ = Seq<Insertion>;
pub open spec fn ins_views(s: Seq<InsertionsBacklog>) -> Seq<InsQ> { s.map_values(|q: InsertionsBacklog| q.insertions@) }
impl<'a> BackloggedInsertions<'a> {
    /// What's still to be gone through: for each replica the insertions that are kept.
    pub open spec fn queues(&self) -> Seq<InsQ> {
        match self.current {
            Some(q) => seq![q.insertions@] + ins_views(self.iter.rest()),
            None => Seq::empty(),
        }
    }
    pub open spec fn ok(&self) -> bool {
        &&& self.current is None ==> self.iter.rest().len() == 0
        &&& ins_queues_ok(&*self.replica, self.queues())
    }
}
/// One queue per replica, in order, none merged yet.
#[verifier::opaque]
pub open spec fn ins_queues_ok(r: &Replica, qs: Seq<InsQ>) -> bool {
    &&& r.wf()
    &&& forall|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 ==> ins_sorted(qs[k], qs[k][0].text.inserted_by)
    &&& forall|k: int, l: int| 0 <= k < l < qs.len() && (#[trigger] qs[k]).len() > 0 && (#[trigger] qs[l]).len() > 0 ==>
        qs[k][0].text.inserted_by != qs[l][0].text.inserted_by
    &&& forall|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() ==> !r.merged_ins(#[trigger] qs[k][i])
}
#[verifier::opaque]
pub open spec fn ins_drains(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<InsQ>) -> bool {
    &&& holds(w, d0, r, log)
    &&& forall|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() ==> kept_ins(w, r, log, #[trigger] qs[k][i])
}
/// `n` queues are left behind: what's first in each can't be merged.
pub open spec fn ins_passed(r: &Replica, qs: Seq<InsQ>, n: int) -> bool {
    &&& 0 <= n <= qs.len()
    &&& forall|k: int| 0 <= k < n && (#[trigger] qs[k]).len() > 0 ==> !r.ready_ins(qs[k][0])
}
pub open spec fn without_first(qs: Seq<InsQ>) -> Seq<InsQ> { qs.update(0, qs[0].skip(1)) }
pub proof fn ins_skip(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<InsQ>)
    requires qs.len() > 0,
    ensures
        ins_queues_ok(r, qs) ==> ins_queues_ok(r, qs.skip(1)),
        ins_drains(w, d0, log, r, qs) ==> ins_drains(w, d0, log, r, qs.skip(1)),
{
    reveal(ins_drains);
    reveal(ins_queues_ok);
    let t = qs.skip(1);
    if ins_queues_ok(r, qs) {
        assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 implies ins_sorted(t[k], t[k][0].text.inserted_by) by { assert(t[k] == qs[k + 1]); }
        assert forall|k: int, l: int| 0 <= k < l < t.len() && (#[trigger] t[k]).len() > 0 && (#[trigger] t[l]).len() > 0 implies
            t[k][0].text.inserted_by != t[l][0].text.inserted_by by { assert(t[k] == qs[k + 1] && t[l] == qs[l + 1]); }
        assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies !r.merged_ins(#[trigger] t[k][i]) by { assert(t[k][i] == qs[k + 1][i]); }
    }
    if ins_drains(w, d0, log, r, qs) {
        assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies kept_ins(w, r, log, #[trigger] t[k][i]) by { assert(t[k][i] == qs[k + 1][i]); }
    }
}
pub proof fn ins_skip_passed(r: &Replica, qs: Seq<InsQ>, n: int)
    requires qs.len() > 0, ins_passed(r, qs.skip(1), n), qs[0].len() > 0 ==> !r.ready_ins(qs[0][0]),
    ensures ins_passed(r, qs, n + 1),
{
    assert forall|k: int| 0 <= k < n + 1 && (#[trigger] qs[k]).len() > 0 implies !r.ready_ins(qs[k][0]) by {
        if k > 0 { assert(qs.skip(1)[k - 1] == qs[k]); }
    }
}
pub proof fn ins_first(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<InsQ>)
    requires ins_queues_ok(r, qs), ins_drains(w, d0, log, r, qs), qs.len() > 0, qs[0].len() > 0,
    ensures
        r.wf(), !r.merged_ins(qs[0][0]), r.genuine_ins(qs[0][0]), qs[0][0].text.range.start < qs[0][0].text.range.end,
{
    reveal(ins_queues_ok);
    reveal(ins_drains);
    assert(!r.merged_ins(qs[0][0]));
    assert(kept_ins(w, r, log, qs[0][0]));
    ins_genuine(w, d0, r, log, qs[0][0]);
}
pub open spec fn ins_took(r: &Replica, qs: Seq<InsQ>, r2: &Replica, qs2: Seq<InsQ>, o: (Text, usize)) -> bool {
    exists|n: int| #[trigger] ins_passed(r, qs, n) && ins_taken(r, qs, n, r2, qs2, o)
}
pub proof fn ins_skip_taken(r: &Replica, qs: Seq<InsQ>, r2: &Replica, qs2: Seq<InsQ>, o: (Text, usize))
    requires qs.len() > 0, ins_took(r, qs.skip(1), r2, qs2, o), qs[0].len() > 0 ==> !r.ready_ins(qs[0][0]),
    ensures ins_took(r, qs, r2, qs2, o),
{
    reveal(ins_taken);
    let n = choose|n: int| #[trigger] ins_passed(r, qs.skip(1), n) && ins_taken(r, qs.skip(1), n, r2, qs2, o);
    ins_skip_passed(r, qs, n);
    assert(qs.skip(1).skip(n) =~= qs.skip(n + 1));
    assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] ins_drains(w, d0, log, r, qs) implies ins_drains(w, d0, log.push(Edit::Ins(qs.skip(n + 1)[0][0])), r2, qs2) by {
        ins_skip(w, d0, log, r, qs);
        assert(ins_drains(w, d0, log, r, qs.skip(1)));
    }
    assert(ins_taken(r, qs, n + 1, r2, qs2, o));
}
pub proof fn ins_now_taken(r: &Replica, qs: Seq<InsQ>, r2: &Replica, o: (Text, usize))
    requires
        ins_queues_ok(r, qs), qs.len() > 0, qs[0].len() > 0, r.ready_ins(qs[0][0]),
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| ins_drains(w, d0, log, r, qs),
        r.after_ins(r2, qs[0][0]), r2.wf(), r2.backlog == r.backlog, o.0 == qs[0][0].text,
        o.1 == vis(r.chars().subrange(0, ins_place(r.chars(), qs[0][0]))),
    ensures
        ins_took(r, qs, r2, without_first(qs), o),
        ins_queues_ok(r2, without_first(qs)),
{
    let (w, d0, log) = choose|w: World, d0: Seq<Ch>, log: Seq<Edit>| ins_drains(w, d0, log, r, qs);
    ins_step(w, d0, log, r, qs, r2);
    assert(ins_passed(r, qs, 0));
    assert(qs.skip(0) =~= qs);
    assert(ins_taken(r, qs, 0, r2, without_first(qs), o)) by {
        reveal(ins_taken);
        assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] ins_drains(w, d0, log, r, qs) implies ins_drains(w, d0, log.push(Edit::Ins(qs[0][0])), r2, without_first(qs)) by {
            ins_step(w, d0, log, r, qs, r2);
        }
    }
}
pub proof fn ins_step(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<InsQ>, r2: &Replica)
    requires
        ins_queues_ok(r, qs), ins_drains(w, d0, log, r, qs), qs.len() > 0, qs[0].len() > 0,
        r.ready_ins(qs[0][0]), r.after_ins(r2, qs[0][0]), r2.wf(),
    ensures
        ins_queues_ok(r2, without_first(qs)),
        ins_drains(w, d0, log.push(Edit::Ins(qs[0][0])), r2, without_first(qs)),
{
    reveal(ins_drains);
    reveal(ins_queues_ok);
    let e = qs[0][0];
    let t = without_first(qs);
    let l2 = log.push(Edit::Ins(e));
    assert(kept_ins(w, r, log, e));
    ins_genuine(w, d0, r, log, e);
    add(w, d0, r, log, r2, Edit::Ins(e));
    assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies !r2.merged_ins(#[trigger] t[k][i]) && kept_ins(w, r2, l2, t[k][i]) by {
        let x = t[k][i];
        let i0 = if k == 0 { i + 1 } else { i };
        assert(x == qs[k][i0]);
        assert(kept_ins(w, r, log, qs[k][i0]));
        assert(!r.merged_ins(qs[k][i0]));
        if log.contains(Edit::Ins(x)) {
            let j = choose|j: int| 0 <= j < log.len() && log[j] == Edit::Ins(x);
            assert(l2[j] == Edit::Ins(x));
        }
        if k == 0 {
            assert(ins_sorted(qs[0], e.text.inserted_by));
            assert(qs[0][0].text.range.start < qs[0][i + 1].text.range.start);
            assert(apart(Edit::Ins(e), Edit::Ins(x)));
        } else {
            assert(qs[0][0].text.inserted_by != qs[k][0].text.inserted_by);
            assert(ins_sorted(qs[k], qs[k][0].text.inserted_by));
            assert(qs[k][i].text.inserted_by == qs[k][0].text.inserted_by);
        }
    }
    assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 implies ins_sorted(t[k], t[k][0].text.inserted_by) by {
        assert(ins_sorted(qs[k], qs[k][0].text.inserted_by));
        if k == 0 {
            assert(t[0] == qs[0].skip(1));
            assert forall|i: int, j: int| 0 <= i < j < t[0].len() implies (#[trigger] t[0][i]).text.range.start < (#[trigger] t[0][j]).text.range.start by {
                assert(t[0][i] == qs[0][i + 1] && t[0][j] == qs[0][j + 1]);
            }
            assert forall|i: int| 0 <= i < t[0].len() implies (#[trigger] t[0][i]).text.inserted_by == t[0][0].text.inserted_by by {
                assert(t[0][i] == qs[0][i + 1] && t[0][0] == qs[0][1]);
            }
        } else { assert(t[k] == qs[k]); }
    }
    assert forall|k: int, l: int| 0 <= k < l < t.len() && (#[trigger] t[k]).len() > 0 && (#[trigger] t[l]).len() > 0 implies
        t[k][0].text.inserted_by != t[l][0].text.inserted_by by {
        assert(t[l] == qs[l]);
        assert(qs[k].len() > 0 && qs[l].len() > 0);
        if k == 0 { assert(ins_sorted(qs[0], e.text.inserted_by)); assert(t[0][0] == qs[0][1]); assert(qs[0][1].text.inserted_by == e.text.inserted_by); } else { assert(t[k] == qs[k]); }
    }
}
%raw
/// The first of the `n`-th queue was taken from it and merged.
#[verifier::opaque]
pub open spec fn ins_taken(r: &Replica, qs: Seq<InsQ>, n: int, r2: &Replica, qs2: Seq<InsQ>, o: (Text, usize)) -> bool {
    let t = qs.skip(n);
    let e = t[0][0];
    &&& n < qs.len() && t[0].len() > 0
    &&& r.ready_ins(e)
    &&& r.after_ins(r2, e)
    &&& r2.backlog == r.backlog
    &&& qs2 == without_first(t)
    &&& o.0 == e.text
    &&& o.1 == vis(r.chars().subrange(0, ins_place(r.chars(), e)))
    &&& forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] ins_drains(w, d0, log, r, qs) ==>
        ins_drains(w, d0, log.push(Edit::Ins(e)), r2, qs2)
}
%impl Iterator for BackloggedInsertions<'_>
%header impl BackloggedInsertions<'_>
%fn next
%sigsub Self::Item =>> (Text, Length)
%sub self.next() =>> { let vx_r = self.vx_next(); vx_r }
%rename vx_next
    requires
        old(self).ok(),
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| ins_drains(w, d0, log, &*old(self).replica, old(self).queues()),
    ensures
        final(self).ok(),
        r is None ==> {
            &&& final(self).queues().len() == 0
            &&& *final(self).replica == *old(self).replica
            &&& ins_passed(&*old(self).replica, old(self).queues(), old(self).queues().len() as int)
        },
        r is Some ==> ins_took(&*old(self).replica, old(self).queues(), &*final(self).replica, final(self).queues(), r->Some_0),
    decreases old(self).queues().len(),
%at start
    let ghost qs = self.queues();
    let ghost r0 = *self.replica;
    let ghost (w, d0, log) = choose|w: World, d0: Seq<Ch>, log: Seq<Edit>| ins_drains(w, d0, log, &r0, qs);
%before let vx_r
    proof {
        assert(self.queues() =~= qs.skip(1));
        ins_skip(w, d0, log, &r0, qs);
        assert(ins_drains(w, d0, log, &*self.replica, self.queues()));
    }
%before 1 let vx_r
    proof {
        assert(self.queues() =~= qs.skip(1));
        ins_skip(w, d0, log, &r0, qs);
        assert(ins_drains(w, d0, log, &*self.replica, self.queues()));
    }
%after let vx_r
    proof {
        if vx_r is None { ins_skip_passed(&r0, qs, qs.len() - 1); }
        else { ins_skip_taken(&r0, qs, &*self.replica, self.queues(), vx_r->Some_0); }
    }
%after 1 let vx_r
    proof {
        if vx_r is None { ins_skip_passed(&r0, qs, qs.len() - 1); }
        else { ins_skip_taken(&r0, qs, &*self.replica, self.queues(), vx_r->Some_0); }
    }
%before if self.replica.can_merge
    proof {
        assert(*first == qs[0][0]);
        ins_first(w, d0, log, &r0, qs);
    }
%after let edit
    proof {
        assert(self.queues() =~= without_first(qs));
        ins_now_taken(&r0, qs, &*self.replica, (qs[0][0].text, edit));
    }
%impl BackloggedInsertions<'a>
%fn from_replica
%sub replica.backlog_mut() =>> vx_lend(replica)
%sub core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog) =>> backlog
    requires
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(replica), log),
    ensures
        *r.replica == *old(replica),
        r.ok(),
        ins_all_there(&old(replica).backlog, r.queues()),
        forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(replica), log) ==> ins_drains(w, d0, log, &*r.replica, r.queues()),
%at start
    let ghost r0 = *replica;
    let ghost (w, d0, log) = choose|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, &r0, log);
%after let mut iter
    let ghost all = iter.rest();
    let ghost ks = choose|ks: Seq<u64>| #[trigger] values_of(r0.backlog.insertions@, ks, all);
%after let current
    proof {
        let qs = ins_views(all);
        if current is Some { assert(qs =~= seq![(*current->Some_0).insertions@] + ins_views(iter.rest())); }
        else { assert(qs =~= Seq::<InsQ>::empty()); }
        ins_lent(w, d0, &r0, log, ks, all);
        assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, &r0, log) implies ins_drains(w, d0, log, &r0, qs) by {
            ins_lent(w, d0, &r0, log, ks, all);
        }
    }
%file replica.rs
%impl Replica
%fn backlogged_insertions
    requires
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(self), log),
    ensures
        *r.replica == *old(self),
        r.ok(),
        ins_all_there(&old(self).backlog, r.queues()),
        forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(self), log) ==> ins_drains(w, d0, log, &*r.replica, r.queues()),
%raw
/// The queues are those of the backlog.
pub open spec fn ins_all_there(b: &Backlog, qs: Seq<InsQ>) -> bool {
    &&& forall|id: u64| (#[trigger] b.ins(id)).len() > 0 ==> exists|k: int| 0 <= k < qs.len() && #[trigger] qs[k] == b.ins(id)
    &&& forall|k: int| 0 <= k < qs.len() ==> is_ins_of(b, #[trigger] qs[k])
}
pub open spec fn is_ins_of(b: &Backlog, q: InsQ) -> bool { exists|id: u64| #[trigger] b.ins(id) == q }
pub proof fn ins_lent(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, ks: Seq<u64>, all: Seq<InsertionsBacklog>)
    requires state(w, d0, r, log), values_of(r.backlog.insertions@, ks, all),
    ensures
        ins_queues_ok(r, ins_views(all)),
        ins_drains(w, d0, log, r, ins_views(all)),
        ins_all_there(&r.backlog, ins_views(all)),
{
    reveal(ins_drains);
    reveal(ins_queues_ok);
    let qs = ins_views(all);
    let b = r.backlog;
    assert forall|k: int| 0 <= k < qs.len() implies qs[k] == b.ins(ks[k]) && ins_sorted(#[trigger] qs[k], ks[k]) by {
        assert(b.insertions@[ks[k]] == all[k]);
        assert(ins_sorted(b.ins(ks[k]), ks[k]));
    }
    assert forall|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 implies qs[k][0].text.inserted_by == ks[k] by { assert(ins_sorted(qs[k], ks[k])); }
    assert forall|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() implies !r.merged_ins(#[trigger] qs[k][i]) && kept_ins(w, r, log, qs[k][i]) by {
        assert(qs[k][i] == b.ins(ks[k])[i]);
        assert(kept_ins(w, r, log, b.ins(ks[k])[i]));
    }
    assert forall|id: u64| (#[trigger] b.ins(id)).len() > 0 implies exists|k: int| 0 <= k < qs.len() && #[trigger] qs[k] == b.ins(id) by {
        assert(ks.contains(id));
        let k = choose|k: int| 0 <= k < ks.len() && ks[k] == id;
        assert(qs[k] == b.ins(id));
    }
    assert forall|k: int| 0 <= k < qs.len() implies is_ins_of(&b, #[trigger] qs[k]) by { assert(qs[k] == b.ins(ks[k])); }
}
/// Each of `es` is merged or waits to be.
pub open spec fn ins_seen(r: &Replica, qs: Seq<InsQ>, es: spec_fn(Insertion) -> bool) -> bool {
    forall|x: Insertion| #[trigger] es(x) ==> r.merged_ins(x) || ins_waits(r, qs, x)
}
pub proof fn ins_none_waits(r: &Replica, qs: Seq<InsQ>, es: spec_fn(Insertion) -> bool)
    requires ins_seen(r, qs, es), ins_passed(r, qs, qs.len() as int),
    ensures forall|x: Insertion| #[trigger] es(x) ==> r.merged_ins(x),
{
    assert forall|x: Insertion| #[trigger] es(x) implies r.merged_ins(x) by {
        if ins_waits(r, qs, x) {
            let k = choose|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 && qs[k][0] == x;
            assert(!r.ready_ins(qs[k][0]));
        }
    }
}
pub proof fn ins_wait_on(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<InsQ>, n: int, r2: &Replica, qs2: Seq<InsQ>, o: (Text, usize), es: spec_fn(Insertion) -> bool)
    requires
        ins_seen(r, qs, es), ins_passed(r, qs, n), ins_taken(r, qs, n, r2, qs2, o),
        ins_queues_ok(r, qs), ins_drains(w, d0, log, r, qs),
    ensures ins_seen(r2, qs2, es),
{
    reveal(ins_drains);
    reveal(ins_queues_ok);
    reveal(ins_taken);
    let e = qs.skip(n)[0][0];
    assert(e == qs[n][0]);
    assert(kept_ins(w, r, log, qs[n][0]));
    assert forall|x: Insertion| #[trigger] es(x) implies r2.merged_ins(x) || ins_waits(r2, qs2, x) by {
        if !r.merged_ins(x) {
            let k = choose|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 && qs[k][0] == x;
            if k < n { assert(!r.ready_ins(qs[k][0])); }
            if k > n {
                assert(qs[n][0].text.inserted_by != qs[k][0].text.inserted_by);
                assert(qs2[k - n] == qs[k]);
                assert(r2.ready_ins(x));
            }
        }
    }
}
pub proof fn ins_goes_on(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<InsQ>, r2: &Replica, qs2: Seq<InsQ>, o: (Text, usize), es: spec_fn(Insertion) -> bool) -> (l2: Seq<Edit>)
    requires
        ins_queues_ok(r, qs), ins_drains(w, d0, log, r, qs), ins_seen(r, qs, es), ins_took(r, qs, r2, qs2, o),
    ensures
        ins_left(qs2) < ins_left(qs), ins_seen(r2, qs2, es), ins_drains(w, d0, l2, r2, qs2),
{
    let n = choose|n: int| #[trigger] ins_passed(r, qs, n) && ins_taken(r, qs, n, r2, qs2, o);
    reveal(ins_taken);
    ins_left_less(qs, n);
    ins_wait_on(w, d0, log, r, qs, n, r2, qs2, o, es);
    log.push(Edit::Ins(qs.skip(n)[0][0]))
}
/// Everything kept that could be merged when the iterator was made has been when
/// it's through.
pub fn vx_drain_insertions(r: &mut Replica, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log0): Ghost<Seq<Edit>>) -> (n: Ghost<Replica>)
    requires
        state(w, d0, old(r), log0),
    ensures
        // `n` is what the replica is without its backlog
        forall|id: u64, i: int| 0 <= i < old(r).backlog.ins(id).len() && old(r).ready_ins(#[trigger] old(r).backlog.ins(id)[i]) ==>
            n@.merged_ins(old(r).backlog.ins(id)[i]),
{
    let ghost r0 = *r;
    let ghost mut log = log0;
    let ghost es = |x: Insertion| r0.ready_ins(x) && r0.backlog.ins(x.text.inserted_by).contains(x);
    let mut it = r.backlogged_insertions();
    proof {
        assert forall|x: Insertion| #[trigger] es(x) implies ins_waits(&r0, it.queues(), x) by {
            let s = r0.backlog.ins(x.text.inserted_by);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            ins_ready_first(w, d0, &r0, log, it.queues(), x.text.inserted_by, i);
        }
    }
    loop
        invariant_except_break
            it.ok(),
            ins_drains(w, d0, log, &*it.replica, it.queues()),
            ins_seen(&*it.replica, it.queues(), es),
        ensures
            forall|x: Insertion| #[trigger] es(x) ==> it.replica.merged_ins(x),
        decreases ins_left(it.queues()),
    {
        let ghost qs = it.queues();
        let ghost q0 = *it.replica;
        let o = it.vx_next();
        if o.is_none() {
            proof { ins_none_waits(&q0, qs, es); }
            break;
        }
        proof {
            log = ins_goes_on(w, d0, log, &q0, qs, &*it.replica, it.queues(), o->Some_0, es);
        }
    }
    proof {
        assert forall|id: u64, i: int| 0 <= i < r0.backlog.ins(id).len() && r0.ready_ins(#[trigger] r0.backlog.ins(id)[i]) implies
            it.replica.merged_ins(r0.backlog.ins(id)[i]) by {
            assert(ins_sorted(r0.backlog.ins(id), id));
            assert(es(r0.backlog.ins(id)[i]));
        }
    }
    Ghost(*it.replica)
}
/// The insertion can be merged and is the first of its queue.
pub open spec fn ins_waits(r: &Replica, qs: Seq<InsQ>, x: Insertion) -> bool {
    r.ready_ins(x) && exists|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 && qs[k][0] == x
}
pub open spec fn ins_left(qs: Seq<InsQ>) -> nat
    decreases qs.len(),
{
    if qs.len() == 0 { 0 } else { qs[0].len() + ins_left(qs.drop_first()) }
}
pub proof fn ins_left_less(qs: Seq<InsQ>, n: int)
    requires 0 <= n < qs.len(), qs[n].len() > 0,
    ensures ins_left(without_first(qs.skip(n))) < ins_left(qs),
    decreases n,
{
    if n > 0 {
        ins_left_less(qs.drop_first(), n - 1);
        assert(qs.drop_first().skip(n - 1) =~= qs.skip(n));
    } else {
        assert(qs.skip(0) =~= qs);
        assert(without_first(qs).drop_first() =~= qs.drop_first());
    }
}
pub proof fn ins_ready_first(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, qs: Seq<InsQ>, id: u64, i: int)
    requires
        state(w, d0, r, log), ins_all_there(&r.backlog, qs),
        0 <= i < r.backlog.ins(id).len(), r.ready_ins(r.backlog.ins(id)[i]),
    ensures ins_waits(r, qs, r.backlog.ins(id)[i]),
{
    let s = r.backlog.ins(id);
    assert(ins_sorted(s, id));
    assert(!r.merged_ins(s[0]));
    if i > 0 { assert(s[0].text.range.start < s[i].text.range.start); }
    let k = choose|k: int| 0 <= k < qs.len() && #[trigger] qs[k] == s;
    assert(qs[k][0] == s[i]);
}
pub type DelQ = Seq<Deletion>;
pub open spec fn del_views(s: Seq<DeletionsBacklog>) -> Seq<DelQ> { s.map_values(|q: DeletionsBacklog| q.deletions@) }
impl<'a> BackloggedDeletions<'a> {
    pub open spec fn queues(&self) -> Seq<DelQ> {
        match self.current {
            Some(q) => seq![q.deletions@] + del_views(self.iter.rest()),
            None => Seq::empty(),
        }
    }
    pub open spec fn ok(&self) -> bool {
        &&& self.current is None ==> self.iter.rest().len() == 0
        &&& del_queues_ok(&*self.replica, self.queues())
    }
    pub open spec fn first_len(&self) -> int { if self.queues().len() > 0 { self.queues()[0].len() as int } else { 0 } }
}
pub open spec fn by(q: DelQ) -> u64 { q[0].version_map.this_id }
#[verifier::opaque]
pub open spec fn del_queues_ok(r: &Replica, qs: Seq<DelQ>) -> bool {
    &&& r.wf()
    &&& forall|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 ==> del_sorted(qs[k], by(qs[k]))
    &&& forall|k: int, l: int| 0 <= k < l < qs.len() && (#[trigger] qs[k]).len() > 0 && (#[trigger] qs[l]).len() > 0 ==> by(qs[k]) != by(qs[l])
    &&& forall|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() ==> !r.merged_del(#[trigger] qs[k][i])
}
#[verifier::opaque]
pub open spec fn del_drains(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<DelQ>) -> bool {
    &&& holds(w, d0, r, log)
    &&& forall|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() ==> kept_del(w, d0, r, log, #[trigger] qs[k][i])
}
pub open spec fn del_waits(qs: Seq<DelQ>, x: Deletion) -> bool { exists|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() && #[trigger] qs[k][i] == x }
pub open spec fn none_by(qs: Seq<DelQ>, a: u64) -> bool { forall|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 ==> by(qs[k]) != a }
/// Each of `es` is merged, or waits to be, or can't be and won't have become able to.
pub open spec fn del_seen(r: &Replica, qs: Seq<DelQ>, es: spec_fn(Deletion) -> bool) -> bool {
    forall|x: Deletion| #[trigger] es(x) ==> r.merged_del(x) || del_waits(qs, x) || (!r.ready_del(x) && none_by(qs, x.version_map.this_id))
}
/// What going on with the iterator does.
#[verifier::opaque]
pub open spec fn del_moved(r: &Replica, qs: Seq<DelQ>, r2: &Replica, qs2: Seq<DelQ>) -> bool {
    &&& r2.id == r.id && r2.version_map == r.version_map && r2.backlog == r.backlog
    &&& forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] del_drains(w, d0, log, r, qs) ==> del_drained(w, d0, log, r2, qs2)
    &&& forall|es: spec_fn(Deletion) -> bool| #[trigger] del_seen(r, qs, es) ==> del_seen(r2, qs2, es)
}
pub open spec fn del_drained(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<DelQ>) -> bool {
    exists|more: Seq<Edit>| del_drains(w, d0, #[trigger] (log + more), r, qs)
}
pub proof fn del_stays(r: &Replica, qs: Seq<DelQ>)
    ensures del_moved(r, qs, r, qs),
{
    reveal(del_drains);
    reveal(del_moved);
    assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] del_drains(w, d0, log, r, qs) implies del_drained(w, d0, log, r, qs) by {
        assert(log + Seq::<Edit>::empty() =~= log);
        assert(del_drains(w, d0, log + Seq::<Edit>::empty(), r, qs));
    }
}
pub proof fn del_moved_drains(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<DelQ>, r2: &Replica, qs2: Seq<DelQ>)
    requires del_moved(r, qs, r2, qs2), del_drains(w, d0, log, r, qs),
    ensures del_drained(w, d0, log, r2, qs2),
{
    reveal(del_moved);
}
pub proof fn del_moved_seen(es: spec_fn(Deletion) -> bool, r: &Replica, qs: Seq<DelQ>, r2: &Replica, qs2: Seq<DelQ>)
    requires del_moved(r, qs, r2, qs2), del_seen(r, qs, es),
    ensures del_seen(r2, qs2, es),
{
    reveal(del_moved);
}
pub proof fn del_moves_on(r: &Replica, qs: Seq<DelQ>, r1: &Replica, qs1: Seq<DelQ>, r2: &Replica, qs2: Seq<DelQ>)
    requires del_moved(r, qs, r1, qs1), del_moved(r1, qs1, r2, qs2),
    ensures del_moved(r, qs, r2, qs2),
{
    reveal(del_drains);
    reveal(del_moved);
    assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] del_drains(w, d0, log, r, qs) implies del_drained(w, d0, log, r2, qs2) by {
        assert(del_drained(w, d0, log, r1, qs1));
        let m = choose|more: Seq<Edit>| del_drains(w, d0, #[trigger] (log + more), r1, qs1);
        assert(del_drained(w, d0, log + m, r2, qs2));
        let n = choose|more: Seq<Edit>| del_drains(w, d0, #[trigger] ((log + m) + more), r2, qs2);
        assert((log + m) + n =~= log + (m + n));
    }
}
pub proof fn del_skip(r: &Replica, qs: Seq<DelQ>)
    requires qs.len() > 0, del_queues_ok(r, qs), qs[0].len() > 0 ==> !r.ready_del(qs[0][0]),
    ensures del_queues_ok(r, qs.skip(1)), del_moved(r, qs, r, qs.skip(1)),
{
    reveal(del_drains);
    reveal(del_queues_ok);
    reveal(del_moved);
    let t = qs.skip(1);
    assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 implies del_sorted(t[k], by(t[k])) by { assert(t[k] == qs[k + 1]); }
    assert forall|k: int, l: int| 0 <= k < l < t.len() && (#[trigger] t[k]).len() > 0 && (#[trigger] t[l]).len() > 0 implies by(t[k]) != by(t[l]) by { assert(t[k] == qs[k + 1] && t[l] == qs[l + 1]); }
    assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies !r.merged_del(#[trigger] t[k][i]) by { assert(t[k][i] == qs[k + 1][i]); }
    assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] del_drains(w, d0, log, r, qs) implies del_drained(w, d0, log, r, t) by {
        assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies kept_del(w, d0, r, log, #[trigger] t[k][i]) by { assert(t[k][i] == qs[k + 1][i]); }
        assert(log + Seq::<Edit>::empty() =~= log);
        assert(del_drains(w, d0, log + Seq::<Edit>::empty(), r, t));
    }
    assert forall|es: spec_fn(Deletion) -> bool| #[trigger] del_seen(r, qs, es) implies del_seen(r, t, es) by {
        assert forall|x: Deletion| #[trigger] es(x) implies r.merged_del(x) || del_waits(t, x) || (!r.ready_del(x) && none_by(t, x.version_map.this_id)) by {
            if !r.merged_del(x) {
                if del_waits(qs, x) {
                    let (k, i) = choose|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() && #[trigger] qs[k][i] == x;
                    if k > 0 { assert(t[k - 1][i] == x); }
                    else {
                        assert(del_sorted(qs[0], by(qs[0])));
                        assert(!r.merged_del(qs[0][0]));
                        assert(qs[0][i].version_map.this_id == by(qs[0]));
                        if i > 0 { assert(qs[0][0].deletion_ts < qs[0][i].deletion_ts); }
                        assert(!r.ready_del(x));
                        assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 implies by(t[k]) != by(qs[0]) by { assert(t[k] == qs[k + 1]); }
                    }
                } else {
                    assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 implies by(t[k]) != x.version_map.this_id by { assert(t[k] == qs[k + 1]); }
                }
            }
        }
    }
}
pub open spec fn del_without_first(qs: Seq<DelQ>) -> Seq<DelQ> { qs.update(0, qs[0].skip(1)) }
pub proof fn del_first(w: World, d0: Seq<Ch>, log: Seq<Edit>, r: &Replica, qs: Seq<DelQ>)
    requires del_queues_ok(r, qs), del_drains(w, d0, log, r, qs), qs.len() > 0, qs[0].len() > 0,
    ensures
        r.wf(), !r.merged_del(qs[0][0]), r.genuine_del(qs[0][0]), qs[0][0].end.replica_id != 0, qs[0][0].version_map.wf(),
{
    reveal(del_queues_ok);
    reveal(del_drains);
    assert(!r.merged_del(qs[0][0]));
    assert(kept_del(w, d0, r, log, qs[0][0]));
    let theirs = choose|theirs: Seq<Edit>| made_del(w, d0, theirs, qs[0][0]);
    facts_of(w, d0, r, log);
    del_genuine(w, d0, r, log, theirs, qs[0][0]);
}
pub proof fn del_step(r: &Replica, qs: Seq<DelQ>, r2: &Replica)
    requires
        del_queues_ok(r, qs), qs.len() > 0, qs[0].len() > 0,
        r.ready_del(qs[0][0]), r.after_del(r2, qs[0][0]), r2.wf(), r2.backlog == r.backlog,
    ensures
        del_queues_ok(r2, del_without_first(qs)),
        del_moved(r, qs, r2, del_without_first(qs)),
{
    reveal(del_drains);
    reveal(del_queues_ok);
    reveal(del_moved);
    let e = qs[0][0];
    let a = by(qs[0]);
    let t = del_without_first(qs);
    assert(del_sorted(qs[0], a));
    assert forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).len() > 0 implies qs[k].len() > 0 && by(t[k]) == by(qs[k]) && del_sorted(t[k], by(t[k])) by {
        assert(del_sorted(qs[k], by(qs[k])));
        if k == 0 {
            assert(t[0] == qs[0].skip(1));
            assert forall|i: int, j: int| 0 <= i < j < t[0].len() implies (#[trigger] t[0][i]).deletion_ts < (#[trigger] t[0][j]).deletion_ts by {
                assert(t[0][i] == qs[0][i + 1] && t[0][j] == qs[0][j + 1]);
            }
            assert forall|i: int| 0 <= i < t[0].len() implies (#[trigger] t[0][i]).version_map.this_id == a by { assert(t[0][i] == qs[0][i + 1]); }
        } else { assert(t[k] == qs[k]); }
    }
    assert forall|k: int, l: int| 0 <= k < l < t.len() && (#[trigger] t[k]).len() > 0 && (#[trigger] t[l]).len() > 0 implies by(t[k]) != by(t[l]) by {
        assert(by(qs[k]) != by(qs[l]));
    }
    assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies !r2.merged_del(#[trigger] t[k][i]) by {
        let i0 = if k == 0 { i + 1 } else { i };
        assert(t[k][i] == qs[k][i0]);
        assert(!r.merged_del(qs[k][i0]));
        assert(del_sorted(qs[k], by(qs[k])));
        assert(qs[k][i0].version_map.this_id == by(qs[k]));
        if k == 0 { assert(qs[0][0].deletion_ts < qs[0][i + 1].deletion_ts); } else { assert(by(qs[0]) != by(qs[k])); }
    }
    assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| #[trigger] del_drains(w, d0, log, r, qs) implies del_drained(w, d0, log, r2, t) by {
        let m = seq![Edit::Del(e)];
        let l2 = log.push(Edit::Del(e));
        assert(log + m =~= l2);
        assert(kept_del(w, d0, r, log, qs[0][0]));
        let theirs = choose|theirs: Seq<Edit>| made_del(w, d0, theirs, e);
        del_genuine(w, d0, r, log, theirs, e);
        add(w, d0, r, log, r2, Edit::Del(e));
        assert forall|k: int, i: int| 0 <= k < t.len() && 0 <= i < t[k].len() implies kept_del(w, d0, r2, l2, #[trigger] t[k][i]) by {
            let i0 = if k == 0 { i + 1 } else { i };
            assert(t[k][i] == qs[k][i0]);
            assert(kept_del(w, d0, r, log, qs[k][i0]));
            if log.contains(Edit::Del(t[k][i])) {
                let j = choose|j: int| 0 <= j < log.len() && log[j] == Edit::Del(t[k][i]);
                assert(l2[j] == Edit::Del(t[k][i]));
            }
        }
        assert(del_drains(w, d0, log + m, r2, t));
    }
    assert forall|es: spec_fn(Deletion) -> bool| #[trigger] del_seen(r, qs, es) implies del_seen(r2, t, es) by {
        assert forall|x: Deletion| #[trigger] es(x) implies r2.merged_del(x) || del_waits(t, x) || (!r2.ready_del(x) && none_by(t, x.version_map.this_id)) by {
            if !r2.merged_del(x) {
                if del_waits(qs, x) {
                    let (k, i) = choose|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() && #[trigger] qs[k][i] == x;
                    if k > 0 { assert(t[k][i] == x); }
                    else if i > 0 { assert(t[0][i - 1] == x); }
                } else if !r.merged_del(x) {
                    assert(by(qs[0]) != x.version_map.this_id);
                    assert(!r2.ready_del(x));
                }
            }
        }
    }
}
/// Nothing was visibly deleted: nothing was deleted.
pub proof fn nothing_told(s: Seq<Ch>, d: Deletion)
    requires ranges_tell(s, merge_del(s, d), Seq::empty()),
    ensures merge_del(s, d) == s,
{
    let t = merge_del(s, d);
    assert forall|i: int| 0 <= i < s.len() implies t[i] == s[i] by {
        if !s[i].del { assert(t[i].del == in_ranges(Seq::empty(), vis(s.subrange(0, i)) as int)); }
    }
    assert(t =~= s);
}
%file backlog.rs
%impl Iterator for BackloggedDeletions<'_>
%header impl BackloggedDeletions<'_>
%fn next
%sigsub Self::Item =>> Vec<Range<Length>>
%sub self.next() =>> { let vx_r = self.vx_next(); vx_r }
%rename vx_next
    requires
        old(self).ok(),
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| del_drains(w, d0, log, &*old(self).replica, old(self).queues()),
    ensures
        final(self).ok(),
        del_moved(&*old(self).replica, old(self).queues(), &*final(self).replica, final(self).queues()),
        r is None ==> final(self).queues().len() == 0 && final(self).replica.chars() == old(self).replica.chars(),
        r is Some ==> del_left(final(self).queues()) < del_left(old(self).queues()) && r->Some_0@.len() > 0
            && ranges_tell(old(self).replica.chars(), final(self).replica.chars(), r->Some_0@),
    decreases old(self).queues().len(), old(self).first_len(),
%at start
    let ghost qs = self.queues();
    let ghost r0 = *self.replica;
    let ghost (w, d0, log) = choose|w: World, d0: Seq<Ch>, log: Seq<Edit>| del_drains(w, d0, log, &r0, qs);
    proof { del_stays(&r0, qs); }
%before let vx_r
    proof {
        assert(self.queues() =~= qs.skip(1));
        del_skip(&r0, qs);
        del_moved_drains(w, d0, log, &r0, qs, &r0, self.queues());
    }
%after let vx_r
    proof {
        del_moves_on(&r0, qs, &r0, qs.skip(1), &*self.replica, self.queues());
        assert(qs.skip(1) =~= qs.drop_first());
    }
%before 2 let vx_r
    proof {
        assert(self.queues() =~= qs.skip(1));
        del_skip(&r0, qs);
        del_moved_drains(w, d0, log, &r0, qs, &r0, self.queues());
    }
%after 2 let vx_r
    proof {
        del_moves_on(&r0, qs, &r0, qs.skip(1), &*self.replica, self.queues());
        assert(qs.skip(1) =~= qs.drop_first());
    }
%before if self.replica.can_merge
    proof {
        assert(*first == qs[0][0]);
        del_first(w, d0, log, &r0, qs);
    }
%after let ranges
    let ghost r1 = *self.replica;
    let ghost qs1 = self.queues();
    proof {
        assert(qs1 =~= del_without_first(qs));
        del_step(&r0, qs, &r1);
        assert(qs1.drop_first() =~= qs.drop_first());
        del_moved_drains(w, d0, log, &r0, qs, &r1, qs1);
        if ranges@.len() == 0 {
            assert(ranges@ =~= Seq::empty());
            nothing_told(r0.chars(), qs[0][0]);
        }
    }
%after 1 let vx_r
    proof { del_moves_on(&r0, qs, &r1, qs1, &*self.replica, self.queues()); }
%raw
pub open spec fn del_left(qs: Seq<DelQ>) -> nat
    decreases qs.len(),
{
    if qs.len() == 0 { 0 } else { qs[0].len() + del_left(qs.drop_first()) }
}
%file backlog.rs
%impl BackloggedDeletions<'a>
%fn from_replica
%sub replica.backlog_mut() =>> vx_lend(replica)
%sub core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog) =>> backlog
    requires
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(replica), log),
    ensures
        *r.replica == *old(replica),
        r.ok(),
        del_all_there(&old(replica).backlog, r.queues()),
        forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(replica), log) ==> del_drains(w, d0, log, &*r.replica, r.queues()),
%at start
    let ghost r0 = *replica;
    let ghost (w, d0, log) = choose|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, &r0, log);
%after let mut iter
    let ghost all = iter.rest();
    let ghost ks = choose|ks: Seq<u64>| #[trigger] values_of(r0.backlog.deletions@, ks, all);
%after let current
    proof {
        let qs = del_views(all);
        if current is Some { assert(qs =~= seq![(*current->Some_0).deletions@] + del_views(iter.rest())); }
        else { assert(qs =~= Seq::<DelQ>::empty()); }
        del_lent(w, d0, &r0, log, ks, all);
        assert forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, &r0, log) implies del_drains(w, d0, log, &r0, qs) by {
            del_lent(w, d0, &r0, log, ks, all);
        }
    }
%file replica.rs
%impl Replica
%fn backlogged_deletions
    requires
        exists|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(self), log),
    ensures
        *r.replica == *old(self),
        r.ok(),
        del_all_there(&old(self).backlog, r.queues()),
        forall|w: World, d0: Seq<Ch>, log: Seq<Edit>| state(w, d0, old(self), log) ==> del_drains(w, d0, log, &*r.replica, r.queues()),
%raw
pub open spec fn del_all_there(b: &Backlog, qs: Seq<DelQ>) -> bool {
    &&& forall|id: u64| (#[trigger] b.dels(id)).len() > 0 ==> exists|k: int| 0 <= k < qs.len() && #[trigger] qs[k] == b.dels(id)
    &&& forall|k: int| 0 <= k < qs.len() ==> is_dels_of(b, #[trigger] qs[k])
}
pub open spec fn is_dels_of(b: &Backlog, q: DelQ) -> bool { exists|id: u64| #[trigger] b.dels(id) == q }
pub proof fn del_lent(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, ks: Seq<u64>, all: Seq<DeletionsBacklog>)
    requires state(w, d0, r, log), values_of(r.backlog.deletions@, ks, all),
    ensures
        del_queues_ok(r, del_views(all)),
        del_drains(w, d0, log, r, del_views(all)),
        del_all_there(&r.backlog, del_views(all)),
{
    reveal(del_drains);
    reveal(del_queues_ok);
    let qs = del_views(all);
    let b = r.backlog;
    assert forall|k: int| 0 <= k < qs.len() implies qs[k] == b.dels(ks[k]) && del_sorted(#[trigger] qs[k], ks[k]) by {
        assert(b.deletions@[ks[k]] == all[k]);
        assert(del_sorted(b.dels(ks[k]), ks[k]));
    }
    assert forall|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).len() > 0 implies by(qs[k]) == ks[k] by { assert(del_sorted(qs[k], ks[k])); }
    assert forall|k: int, i: int| 0 <= k < qs.len() && 0 <= i < qs[k].len() implies !r.merged_del(#[trigger] qs[k][i]) && kept_del(w, d0, r, log, qs[k][i]) by {
        assert(qs[k][i] == b.dels(ks[k])[i]);
        assert(kept_del(w, d0, r, log, b.dels(ks[k])[i]));
    }
    assert forall|id: u64| (#[trigger] b.dels(id)).len() > 0 implies exists|k: int| 0 <= k < qs.len() && #[trigger] qs[k] == b.dels(id) by {
        assert(ks.contains(id));
        let k = choose|k: int| 0 <= k < ks.len() && ks[k] == id;
        assert(qs[k] == b.dels(id));
    }
    assert forall|k: int| 0 <= k < qs.len() implies is_dels_of(&b, #[trigger] qs[k]) by { assert(qs[k] == b.dels(ks[k])); }
}
/// No deletion that's kept can be merged any more when the iterator is through.
pub fn vx_drain_deletions(r: &mut Replica, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log0): Ghost<Seq<Edit>>) -> (n: Ghost<Replica>)
    requires
        state(w, d0, old(r), log0),
    ensures
        // `n` is what the replica is without its backlog
        forall|id: u64, i: int| 0 <= i < old(r).backlog.dels(id).len() ==>
            n@.merged_del(#[trigger] old(r).backlog.dels(id)[i]) || !n@.ready_del(old(r).backlog.dels(id)[i]),
{
    let ghost r0 = *r;
    let ghost mut log = log0;
    let ghost es = |x: Deletion| r0.backlog.dels(x.version_map.this_id).contains(x);
    let mut it = r.backlogged_deletions();
    proof {
        assert forall|x: Deletion| #[trigger] es(x) implies del_waits(it.queues(), x) by {
            let s = r0.backlog.dels(x.version_map.this_id);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            let k = choose|k: int| 0 <= k < it.queues().len() && #[trigger] it.queues()[k] == s;
            assert(it.queues()[k][i] == x);
        }
    }
    loop
        invariant_except_break
            it.ok(),
            del_drains(w, d0, log, &*it.replica, it.queues()),
            del_seen(&*it.replica, it.queues(), es),
        ensures
            del_seen(&*it.replica, it.queues(), es),
            it.queues().len() == 0,
        decreases del_left(it.queues()),
    {
        let ghost qs = it.queues();
        let ghost q0 = *it.replica;
        let o = it.vx_next();
        proof {
            assert(del_moved(&q0, qs, &*it.replica, it.queues()));
            del_moved_drains(w, d0, log, &q0, qs, &*it.replica, it.queues());
            del_moved_seen(es, &q0, qs, &*it.replica, it.queues());
            let m = choose|more: Seq<Edit>| del_drains(w, d0, #[trigger] (log + more), &*it.replica, it.queues());
            log = log + m;
        }
        if o.is_none() { break; }
    }
    proof {
        assert forall|id: u64, i: int| 0 <= i < r0.backlog.dels(id).len() implies
            it.replica.merged_del(#[trigger] r0.backlog.dels(id)[i]) || !it.replica.ready_del(r0.backlog.dels(id)[i]) by {
            assert(del_sorted(r0.backlog.dels(id), id));
            assert(es(r0.backlog.dels(id)[i]));
        }
    }
    Ghost(*it.replica)
}
