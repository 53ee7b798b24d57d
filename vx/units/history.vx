// A replica and the edits it has merged.  What a replica does to a document is
// told by the contracts of its functions alone; these functions call them and
// keep the list of the edits.
%import replica.vx
%use converge.vx
%raw
/// No two insertions insert the same character (ids and a replica's own count
/// see to that), and no document gets longer than can be counted.
pub open spec fn world_ok(w: World) -> bool {
    &&& forall|a: Edit, b: Edit| #[trigger] (w.has)(a) && #[trigger] (w.has)(b) && a != b ==> apart(a, b)
    &&& forall|s: Seq<Ch>| #[trigger] inv(w, s) ==> s.len() <= usize::MAX
}
pub open spec fn of_world(w: World, es: Seq<Edit>) -> bool { forall|i: int| 0 <= i < es.len() ==> (w.has)(#[trigger] es[i]) }
/// `r` is what merging `log` makes of the document `d0` everyone started with.
pub open spec fn holds(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>) -> bool {
    &&& r.wf()
    &&& world_ok(w)
    &&& inv(w, d0)
    &&& of_world(w, log)
    &&& valid(w, d0, log) && uniq(log) && log.no_duplicates()
    &&& r.chars() == apply_all(d0, log)
    &&& forall|id: u64| #[trigger] r.nruns(id) == runs_at(w, id, count(r.chars(), id) as int)
    &&& forall|i: int| 0 <= i < log.len() ==> past(r, #[trigger] log[i])
}
/// The replica knows that it has the edit.
pub open spec fn past(r: &Replica, e: Edit) -> bool {
    match e {
        Edit::Ins(x) => x.text.range.end <= count(r.chars(), x.text.inserted_by),
        Edit::Del(d) => d.deletion_ts <= r.deletion_map.at(d.version_map.this_id),
    }
}
/// The world is one in which this insertion was made.
pub open spec fn told(w: World, e: Insertion) -> bool {
    &&& (w.has)(Edit::Ins(e))
    &&& e.text.range.end <= (w.len)(e.text.inserted_by)
    &&& forall|o: int| e.text.range.start <= o < e.text.range.end ==> #[trigger] (w.ch)(e.text.inserted_by, o) == (e.run_ts, e.lamport_ts)
}
/// The deletion was made by a replica that had merged `log`.
pub open spec fn made_del(w: World, d0: Seq<Ch>, log: Seq<Edit>, d: Deletion) -> bool {
    let s = apply_all(d0, log);
    &&& (w.has)(Edit::Del(d))
    &&& of_world(w, log)
    &&& valid(w, d0, log) && uniq(log) && log.no_duplicates()
    &&& del_ok(s, d)
    &&& d.version_map.wf()
    &&& forall|id: u64| #[trigger] d.version_map.at(id) <= count(s, id)
}
/// All that's kept was made by other replicas (or comes back to its author).
pub open spec fn kept_ins(w: World, r: &Replica, log: Seq<Edit>, e: Insertion) -> bool {
    made_ins(w, e) && (w.has)(Edit::Ins(e)) && (e.text.inserted_by != r.id || log.contains(Edit::Ins(e)))
}
pub open spec fn kept_del(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, d: Deletion) -> bool {
    (exists|theirs: Seq<Edit>| made_del(w, d0, theirs, d)) && (d.version_map.this_id != r.id || log.contains(Edit::Del(d)))
}
/// The backlog: genuine, and nothing that's merged already.
pub open spec fn backlogged(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>) -> bool {
    &&& forall|id: u64, i: int| 0 <= i < r.backlog.ins(id).len() ==>
        kept_ins(w, r, log, #[trigger] r.backlog.ins(id)[i]) && !r.merged_ins(r.backlog.ins(id)[i])
    &&& forall|id: u64, i: int| 0 <= i < r.backlog.dels(id).len() ==>
        kept_del(w, d0, r, log, #[trigger] r.backlog.dels(id)[i]) && !r.merged_del(r.backlog.dels(id)[i])
}
pub proof fn kept_in_log(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, id: u64, i: int)
    requires holds(w, d0, r, log), backlogged(w, d0, r, log),
    ensures
        0 <= i < r.backlog.ins(id).len() ==> !log.contains(Edit::Ins(r.backlog.ins(id)[i])) && r.backlog.ins(id)[i].text.inserted_by == id && id != r.id,
        0 <= i < r.backlog.dels(id).len() ==> !log.contains(Edit::Del(r.backlog.dels(id)[i])) && r.backlog.dels(id)[i].version_map.this_id == id && id != r.id,
{
    facts_of(w, d0, r, log);
    if 0 <= i < r.backlog.ins(id).len() {
        let e = r.backlog.ins(id)[i];
        assert(kept_ins(w, r, log, r.backlog.ins(id)[i]));
        assert(ins_sorted(r.backlog.ins(id), id));
        if log.contains(Edit::Ins(e)) {
            let j = choose|j: int| 0 <= j < log.len() && log[j] == Edit::Ins(e);
            assert(past(r, log[j]));
        }
    }
    if 0 <= i < r.backlog.dels(id).len() {
        let e = r.backlog.dels(id)[i];
        assert(kept_del(w, d0, r, log, r.backlog.dels(id)[i]));
        assert(del_sorted(r.backlog.dels(id), id));
        if log.contains(Edit::Del(e)) {
            let j = choose|j: int| 0 <= j < log.len() && log[j] == Edit::Del(e);
            assert(past(r, log[j]));
        }
    }
}
/// Whatever else is merged, what's kept is still to be merged.
pub proof fn still_kept(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, r2: &Replica, log2: Seq<Edit>)
    requires
        holds(w, d0, r, log), backlogged(w, d0, r, log), r2.id == r.id,
        // what's kept in the end was before
        forall|id: u64, i: int| 0 <= i < r2.backlog.ins(id).len() ==> r.backlog.ins(id).contains(#[trigger] r2.backlog.ins(id)[i]),
        forall|id: u64, i: int| 0 <= i < r2.backlog.dels(id).len() ==> r.backlog.dels(id).contains(#[trigger] r2.backlog.dels(id)[i]),
        // and isn't what was merged
        forall|id: u64, i: int| 0 <= i < r2.backlog.ins(id).len() ==> !r2.merged_ins(#[trigger] r2.backlog.ins(id)[i]),
        forall|id: u64, i: int| 0 <= i < r2.backlog.dels(id).len() ==> !r2.merged_del(#[trigger] r2.backlog.dels(id)[i]),
    ensures backlogged(w, d0, r2, log2),
{
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.ins(id).len() implies
        kept_ins(w, r2, log2, #[trigger] r2.backlog.ins(id)[i]) && !r2.merged_ins(r2.backlog.ins(id)[i]) by {
        let x = r2.backlog.ins(id)[i];
        let j = choose|j: int| 0 <= j < r.backlog.ins(id).len() && r.backlog.ins(id)[j] == x;
        kept_in_log(w, d0, r, log, id, j);
        assert(kept_ins(w, r, log, r.backlog.ins(id)[j]));
    }
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.dels(id).len() implies
        kept_del(w, d0, r2, log2, #[trigger] r2.backlog.dels(id)[i]) && !r2.merged_del(r2.backlog.dels(id)[i]) by {
        let x = r2.backlog.dels(id)[i];
        let j = choose|j: int| 0 <= j < r.backlog.dels(id).len() && r.backlog.dels(id)[j] == x;
        kept_in_log(w, d0, r, log, id, j);
        assert(kept_del(w, d0, r, log, r.backlog.dels(id)[j]));
    }
}
/// Nothing else happened to the backlog.
pub proof fn same_kept(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, r2: &Replica, log2: Seq<Edit>)
    requires
        holds(w, d0, r, log), backlogged(w, d0, r, log), r2.id == r.id, r2.backlog.same(&r.backlog),
        forall|i: u64| i != r.id ==> #[trigger] r2.version_map.at(i) == r.version_map.at(i),
        forall|i: u64| i != r.id ==> #[trigger] r2.deletion_map.at(i) == r.deletion_map.at(i),
    ensures backlogged(w, d0, r2, log2),
{
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.ins(id).len() implies
        r.backlog.ins(id).contains(#[trigger] r2.backlog.ins(id)[i]) && !r2.merged_ins(r2.backlog.ins(id)[i]) by {
        kept_in_log(w, d0, r, log, id, i);
        assert(r.backlog.ins(id)[i] == r2.backlog.ins(id)[i]);
        assert(!r.merged_ins(r.backlog.ins(id)[i]));
    }
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.dels(id).len() implies
        r.backlog.dels(id).contains(#[trigger] r2.backlog.dels(id)[i]) && !r2.merged_del(r2.backlog.dels(id)[i]) by {
        kept_in_log(w, d0, r, log, id, i);
        assert(r.backlog.dels(id)[i] == r2.backlog.dels(id)[i]);
        assert(!r.merged_del(r.backlog.dels(id)[i]));
    }
    still_kept(w, d0, r, log, r2, log2);
}
pub proof fn ins_backlogged(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, r2: &Replica, log2: Seq<Edit>, e: Insertion)
    requires
        holds(w, d0, r, log), backlogged(w, d0, r, log), kept_ins(w, r, log, e), !r.merged_ins(e), r2.id == r.id,
        log2 == log || log2 == log.push(Edit::Ins(e)),
        forall|i: u64| #[trigger] r2.backlog.dels(i) == r.backlog.dels(i),
        forall|i: u64| i != e.text.inserted_by ==> #[trigger] r2.backlog.ins(i) == r.backlog.ins(i),
        r2.deletion_map == r.deletion_map,
        r.ready_ins(e) ==> r.after_ins(r2, e) && ins_gone(r.backlog.ins(e.text.inserted_by), r2.backlog.ins(e.text.inserted_by), e),
        !r.ready_ins(e) ==> r2.version_map == r.version_map && ins_kept(r.backlog.ins(e.text.inserted_by), r2.backlog.ins(e.text.inserted_by), e),
    ensures backlogged(w, d0, r2, log2),
{
    let a = e.text.inserted_by;
    let s = r.backlog.ins(a);
    let t = r2.backlog.ins(a);
    facts_of(w, d0, r, log);
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.dels(id).len() implies
        kept_del(w, d0, r2, log2, #[trigger] r2.backlog.dels(id)[i]) && !r2.merged_del(r2.backlog.dels(id)[i]) by {
        kept_in_log(w, d0, r, log, id, i);
        assert(kept_del(w, d0, r, log, r.backlog.dels(id)[i]));
        assert(!r.merged_del(r.backlog.dels(id)[i]));
    }
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.ins(id).len() implies
        kept_ins(w, r2, log2, #[trigger] r2.backlog.ins(id)[i]) && !r2.merged_ins(r2.backlog.ins(id)[i]) by {
        let x = r2.backlog.ins(id)[i];
        if id != a {
            kept_in_log(w, d0, r, log, id, i);
            assert(kept_ins(w, r, log, r.backlog.ins(id)[i]));
            assert(!r.merged_ins(r.backlog.ins(id)[i]));
        } else if r.ready_ins(e) {
            assert(ins_sorted(s, a));
            let drop = s.len() > 0 && s[0].text.range.start == e.text.range.start;
            let j = if drop { i + 1 } else { i };
            assert(x == s[j]);
            kept_in_log(w, d0, r, log, id, j);
            assert(kept_ins(w, r, log, s[j]) && !r.merged_ins(s[j]));
            if !drop && j > 0 { assert(!r.merged_ins(s[0])); assert(s[0].text.range.start < s[j].text.range.start); }
            if drop { assert(s[0].text.range.start < s[j].text.range.start); }
            assert(s[j].text.range.start > e.text.range.start);
            assert(apart(Edit::Ins(e), Edit::Ins(s[j])));
        } else {
            if log.contains(Edit::Ins(e)) {
                let q = choose|q: int| 0 <= q < log.len() && log[q] == Edit::Ins(e);
                assert(past(r, log[q]));
            }
            if t == s {
                kept_in_log(w, d0, r, log, id, i);
                assert(kept_ins(w, r, log, s[i]) && !r.merged_ins(s[i]));
            } else {
                let p = choose|p: int| 0 <= p <= s.len() && t == #[trigger] s.insert(p, e);
                if i < p { assert(x == s[i]); kept_in_log(w, d0, r, log, id, i); assert(kept_ins(w, r, log, s[i]) && !r.merged_ins(s[i])); }
                if i > p { assert(x == s[i - 1]); kept_in_log(w, d0, r, log, id, i - 1); assert(kept_ins(w, r, log, s[i - 1]) && !r.merged_ins(s[i - 1])); }
            }
        }
    }
}
pub proof fn del_backlogged(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, r2: &Replica, log2: Seq<Edit>, e: Deletion)
    requires
        holds(w, d0, r, log), backlogged(w, d0, r, log), kept_del(w, d0, r, log, e), !r.merged_del(e), r2.id == r.id,
        log2 == log || log2 == log.push(Edit::Del(e)),
        forall|i: u64| #[trigger] r2.backlog.ins(i) == r.backlog.ins(i),
        forall|i: u64| i != e.version_map.this_id ==> #[trigger] r2.backlog.dels(i) == r.backlog.dels(i),
        r2.version_map == r.version_map,
        r.ready_del(e) ==> r.after_del(r2, e) && del_gone(r.backlog.dels(e.version_map.this_id), r2.backlog.dels(e.version_map.this_id), e),
        !r.ready_del(e) ==> r2.deletion_map == r.deletion_map && del_kept(r.backlog.dels(e.version_map.this_id), r2.backlog.dels(e.version_map.this_id), e),
    ensures backlogged(w, d0, r2, log2),
{
    let a = e.version_map.this_id;
    let s = r.backlog.dels(a);
    let t = r2.backlog.dels(a);
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.ins(id).len() implies
        kept_ins(w, r2, log2, #[trigger] r2.backlog.ins(id)[i]) && !r2.merged_ins(r2.backlog.ins(id)[i]) by {
        kept_in_log(w, d0, r, log, id, i);
        assert(kept_ins(w, r, log, r.backlog.ins(id)[i]));
        assert(!r.merged_ins(r.backlog.ins(id)[i]));
    }
    assert forall|id: u64, i: int| 0 <= i < r2.backlog.dels(id).len() implies
        kept_del(w, d0, r2, log2, #[trigger] r2.backlog.dels(id)[i]) && !r2.merged_del(r2.backlog.dels(id)[i]) by {
        let x = r2.backlog.dels(id)[i];
        if id != a {
            kept_in_log(w, d0, r, log, id, i);
            assert(kept_del(w, d0, r, log, r.backlog.dels(id)[i]));
            assert(!r.merged_del(r.backlog.dels(id)[i]));
        } else if r.ready_del(e) {
            assert(del_sorted(s, a));
            let drop = s.len() > 0 && s[0].deletion_ts == e.deletion_ts;
            let j = if drop { i + 1 } else { i };
            assert(x == s[j]);
            kept_in_log(w, d0, r, log, id, j);
            assert(kept_del(w, d0, r, log, s[j]) && !r.merged_del(s[j]));
            if !drop && j > 0 { assert(!r.merged_del(s[0])); assert(s[0].deletion_ts < s[j].deletion_ts); }
            if drop { assert(s[0].deletion_ts < s[j].deletion_ts); }
            assert(s[j].deletion_ts > e.deletion_ts);
        } else {
            if log.contains(Edit::Del(e)) {
                let q = choose|q: int| 0 <= q < log.len() && log[q] == Edit::Del(e);
                assert(past(r, log[q]));
            }
            if t == s {
                kept_in_log(w, d0, r, log, id, i);
                assert(kept_del(w, d0, r, log, s[i]) && !r.merged_del(s[i]));
            } else {
                let p = choose|p: int| 0 <= p <= s.len() && t == #[trigger] s.insert(p, e);
                if i < p { assert(x == s[i]); kept_in_log(w, d0, r, log, id, i); assert(kept_del(w, d0, r, log, s[i]) && !r.merged_del(s[i])); }
                if i > p { assert(x == s[i - 1]); kept_in_log(w, d0, r, log, id, i - 1); assert(kept_del(w, d0, r, log, s[i - 1]) && !r.merged_del(s[i - 1])); }
            }
        }
    }
}
pub proof fn add(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, r2: &Replica, e: Edit)
    requires
        holds(w, d0, r, log),
        ready(w, r.chars(), e), (w.has)(e),
        r2.wf(),
        r2.chars() == apply(r.chars(), e),
        match e {
            Edit::Ins(x) => {
                &&& forall|i: u64| #[trigger] r2.nruns(i) == if i == x.text.inserted_by { x.run_ts + 1 } else { r.nruns(i) }
                &&& r2.deletion_map == r.deletion_map
            },
            Edit::Del(d) => {
                &&& forall|i: u64| #[trigger] r2.nruns(i) == r.nruns(i)
                &&& d.deletion_ts == r.deletion_map.at(d.version_map.this_id) + 1
                &&& forall|i: u64| #[trigger] r2.deletion_map.at(i) == if i == d.version_map.this_id { d.deletion_ts } else { r.deletion_map.at(i) }
            },
        },
    ensures holds(w, d0, r2, log.push(e)),
{
    let l2 = log.push(e);
    all_keep(w, d0, log);
    one_more(w, d0, log, e);
    keeps(w, r.chars(), e);
    assert forall|i: int| 0 <= i < log.len() implies apart(#[trigger] log[i], e) && log[i] != e by { assert(past(r, log[i])); }
    assert forall|i: int, j: int| 0 <= i < j < l2.len() implies apart(#[trigger] l2[i], #[trigger] l2[j]) by {
        assert(l2[i] == log[i]);
        if j < log.len() { assert(l2[j] == log[j]); }
    }
    assert(l2.no_duplicates());
    assert forall|i: int| 0 <= i < l2.len() implies past(r2, #[trigger] l2[i]) by {
        if i < log.len() {
            assert(past(r, log[i]));
            match log[i] { Edit::Ins(x) => { assert(count(r2.chars(), x.text.inserted_by) >= count(r.chars(), x.text.inserted_by)); }, _ => {} }
        }
    }
    assert forall|id: u64| #[trigger] r2.nruns(id) == runs_at(w, id, count(r2.chars(), id) as int) by {
        assert(r.nruns(id) == runs_at(w, id, count(r.chars(), id) as int));
        match e {
            Edit::Ins(x) => { if id == x.text.inserted_by { assert((w.ch)(id, x.text.range.end - 1) == (x.run_ts, x.lamport_ts)); } },
            _ => {},
        }
    }
}
pub proof fn facts_of(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>)
    requires holds(w, d0, r, log),
    ensures inv(w, r.chars()), forall|id: u64| #[trigger] r.version_map.at(id) == count(r.chars(), id),
{
    all_keep(w, d0, log);
}
/// An insertion as it leaves its author.
pub proof fn ins_made(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, e: Insertion)
    requires
        holds(w, d0, r, log),
        ins_ok(r.chars(), r.nruns(e.text.inserted_by), e),
        told(w, e),
    ensures made_ins(w, e), ready(w, r.chars(), Edit::Ins(e)),
{
    let s = r.chars();
    let id = e.text.inserted_by;
    let a = e.anchor;
    facts_of(w, d0, r, log);
    assert(r.nruns(id) == runs_at(w, id, count(s, id) as int));
    if a.replica_id != 0 {
        at_is(s, a.replica_id, a.offset - 1);
        at_only(s, at(s, a.replica_id, a.offset - 1));
    }
    if e.text.range.start > 0 { at_there(s, id, e.text.range.start - 1); }
    assert forall|o: int| 0 <= o < e.text.range.start && !(a.replica_id == id && a.contained_in == e.run_ts) implies (#[trigger] (w.ch)(id, o)).1 < e.lamport_ts by {
        at_there(s, id, o);
        assert(s[at(s, id, o)].lam < e.lamport_ts);
    }
}
/// Whoever has what the insertion depends on can merge it.
pub proof fn ins_genuine(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, e: Insertion)
    requires
        holds(w, d0, r, log), made_ins(w, e),
        e.text.inserted_by != r.id || log.contains(Edit::Ins(e)),
    ensures
        r.genuine_ins(e),
        r.ready_ins(e) ==> ready(w, r.chars(), Edit::Ins(e)),
{
    facts_of(w, d0, r, log);
    if r.ready_ins(e) {
        assert(ready(w, r.chars(), Edit::Ins(e)));
        due(w, r.chars(), e);
        keeps(w, r.chars(), Edit::Ins(e));
        place_bounds(w, r.chars(), e);
        assert(merge_ins(r.chars(), e).len() == r.chars().len() + (e.text.range.end - e.text.range.start));
        if log.contains(Edit::Ins(e)) {
            let i = choose|i: int| 0 <= i < log.len() && log[i] == Edit::Ins(e);
            assert(past(r, log[i]));
        }
        assert(r.nruns(e.text.inserted_by) == runs_at(w, e.text.inserted_by, count(r.chars(), e.text.inserted_by) as int));
    }
}
pub proof fn del_ready(w: World, s: Seq<Ch>, d: Deletion)
    requires inv(w, s), del_ok(s, d), forall|id: u64| #[trigger] d.version_map.at(id) <= count(s, id),
    ensures ready(w, s, Edit::Del(d)),
        d.start.offset < d.version_map.at(d.start.replica_id),
        d.end.offset <= d.version_map.at(d.end.replica_id),
{
    at_is(s, d.start.replica_id, d.start.offset as int);
    at_is(s, d.end.replica_id, d.end.offset - 1);
    at_only(s, del_from(s, d));
    at_only(s, del_to(s, d) - 1);
}
pub proof fn same_wf(r: &Replica, r2: &Replica)
    ensures r.same(r2) && r.wf() ==> r2.wf(), r2.same(r) && r.wf() ==> r2.wf(),
{
}
pub proof fn stays(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, r2: &Replica)
    requires holds(w, d0, r, log), r2.wf(), r.run_tree == r2.run_tree, r.deletion_map == r2.deletion_map,
    ensures holds(w, d0, r2, log),
{
    assert forall|id: u64| #[trigger] r2.nruns(id) == runs_at(w, id, count(r2.chars(), id) as int) by { assert(r.nruns(id) == runs_at(w, id, count(r.chars(), id) as int)); }
    assert forall|i: int| 0 <= i < log.len() implies past(r2, #[trigger] log[i]) by { assert(past(r, log[i])); }
}
/// Whoever has what the deletion depends on can merge it.
pub proof fn del_genuine(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, theirs: Seq<Edit>, d: Deletion)
    requires
        holds(w, d0, r, log), made_del(w, d0, theirs, d),
        d.version_map.this_id != r.id || log.contains(Edit::Del(d)),
    ensures
        r.genuine_del(d),
        r.ready_del(d) ==> ready(w, r.chars(), Edit::Del(d)),
{
    facts_of(w, d0, r, log);
    if r.ready_del(d) {
        if log.contains(Edit::Del(d)) {
            let i = choose|i: int| 0 <= i < log.len() && log[i] == Edit::Del(d);
            assert(past(r, log[i]));
        }
        assert(apart_all(theirs, log));
        let s = apply_all(d0, theirs);
        let t = r.chars();
        let a = (d.start.replica_id, d.start.offset as int);
        let b = (d.end.replica_id, d.end.offset - 1);
        all_keep(w, d0, theirs);
        del_ready(w, s, d);
        assert forall|id: u64| #[trigger] d.version_map.at(id) <= count(t, id) by {
            assert(d.version_map.at(id) <= r.version_map.at(id));
        }
        assert(a.1 < count(s, a.0) && b.1 < count(s, b.0)) by {
            assert(d.version_map.at(a.0) <= count(s, a.0));
            assert(d.version_map.at(b.0) <= count(s, b.0));
        }
        assert(a.1 < count(t, a.0) && b.1 < count(t, b.0)) by {
            assert(d.version_map.at(a.0) <= count(t, a.0));
            assert(d.version_map.at(b.0) <= count(t, b.0));
        }
        same_order(w, d0, theirs, log, a, b);
        at_there(s, a.0, a.1);
        at_there(s, b.0, b.1);
        at_there(t, a.0, a.1);
        at_there(t, b.0, b.1);
        assert(at(s, a.0, a.1) <= at(s, b.0, b.1));
        assert(at(t, a.0, a.1) <= at(t, b.0, b.1));
        assert(s[at(s, a.0, a.1)].run == t[at(t, a.0, a.1)].run);
        assert(s[at(s, b.0, b.1)].run == t[at(t, b.0, b.1)].run);
        assert(del_ok(t, d));
    }
}
/// C01: replicas that merged the same edits hold the same text, tombstones too.
pub proof fn same_edits(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, q: &Replica, other: Seq<Edit>)
    requires
        holds(w, d0, r, log), holds(w, d0, q, other),
        forall|x: Edit| #[trigger] log.contains(x) <==> other.contains(x),
    ensures
        r.chars() == q.chars(),
        vis(r.chars()) == vis(q.chars()),
{
    converge(w, d0, log, other);
}
/// C06: anchors of the same character are in the same order everywhere.
pub proof fn same_order_everywhere(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>, q: &Replica, other: Seq<Edit>, a: (u64, int), b: (u64, int))
    requires
        holds(w, d0, r, log), holds(w, d0, q, other),
        0 <= a.1 < r.version_map.at(a.0), 0 <= b.1 < r.version_map.at(b.0),
        0 <= a.1 < q.version_map.at(a.0), 0 <= b.1 < q.version_map.at(b.0),
    ensures
        at(r.chars(), a.0, a.1) < at(r.chars(), b.0, b.1) <==> at(q.chars(), a.0, a.1) < at(q.chars(), b.0, b.1),
{
    facts_of(w, d0, r, log);
    facts_of(w, d0, q, other);
    assert(r.version_map.at(a.0) == count(r.chars(), a.0) && r.version_map.at(b.0) == count(r.chars(), b.0));
    assert(q.version_map.at(a.0) == count(q.chars(), a.0) && q.version_map.at(b.0) == count(q.chars(), b.0));
    same_order(w, d0, log, other, a, b);
}
pub open spec fn state(w: World, d0: Seq<Ch>, r: &Replica, log: Seq<Edit>) -> bool { holds(w, d0, r, log) && backlogged(w, d0, r, log) }
pub proof fn del_made(w: World, d0: Seq<Ch>, log: Seq<Edit>, d: Deletion)
    requires inv(w, d0), made_del(w, d0, log, d),
    ensures d.end.replica_id != 0,
{
}
/// A first replica.
pub fn vx_new(id: u64, len: usize, Ghost(w): Ghost<World>) -> (r: Replica)
    requires id != 0,
    ensures
        id != 0,
        world_ok(w) && inv(w, block(id, 0, len as int, 0, 0, false)) && (forall|i: u64| #[trigger] r.nruns(i) == runs_at(w, i, count(r.chars(), i) as int)) ==>
            state(w, block(id, 0, len as int, 0, 0, false), &r, Seq::empty()),
{
    let r = Replica::new(id, len);
    proof {
        r.run_tree.facts();
        assert(gap_free(r.chars()));
    }
    r
}
pub fn vx_inserted(r: &mut Replica, at_offset: usize, len: usize, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log): Ghost<Seq<Edit>>) -> (e: Insertion)
    requires state(w, d0, old(r), log), old(r).room(len as int),
    ensures
        len == 0 ==> state(w, d0, final(r), log),
        len > 0 && told(w, e) ==> made_ins(w, e) && state(w, d0, final(r), log.push(Edit::Ins(e))),
{
    let ghost r0 = *r;
    let e = r.inserted(at_offset, len);
    proof {
        if len == 0 { same_wf(&r0, r); stays(w, d0, &r0, log, r); same_kept(w, d0, &r0, log, r, log); }
        if len > 0 && told(w, e) {
            ins_made(w, d0, &r0, log, e);
            add(w, d0, &r0, log, r, Edit::Ins(e));
            assert(r.backlog.same(&r0.backlog));
            same_kept(w, d0, &r0, log, r, log.push(Edit::Ins(e)));
        }
    }
    e
}
pub fn vx_deleted<R: RangeBounds<usize>>(r: &mut Replica, range: R, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log): Ghost<Seq<Edit>>) -> (d: Deletion)
    requires state(w, d0, old(r), log), old(r).room(0),
    ensures
        d.end.replica_id == 0 ==> state(w, d0, final(r), log),
        d.end.replica_id != 0 && (w.has)(Edit::Del(d)) ==> made_del(w, d0, log, d) && state(w, d0, final(r), log.push(Edit::Del(d))),
{
    let ghost r0 = *r;
    let d = r.deleted(range);
    proof {
        facts_of(w, d0, &r0, log);
        if d.end.replica_id == 0 { same_wf(&r0, r); stays(w, d0, &r0, log, r); same_kept(w, d0, &r0, log, r, log); }
        if d.end.replica_id != 0 && (w.has)(Edit::Del(d)) {
            assert forall|id: u64| #[trigger] d.version_map.at(id) <= count(r0.chars(), id) by { assert(d.version_map.at(id) <= r0.version_map.at(id)); }
            del_ready(w, r0.chars(), d);
            add(w, d0, &r0, log, r, Edit::Del(d));
            assert(r.backlog.same(&r0.backlog));
            same_kept(w, d0, &r0, log, r, log.push(Edit::Del(d)));
        }
    }
    d
}
pub fn vx_integrate_insertion(r: &mut Replica, e: &Insertion, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log): Ghost<Seq<Edit>>) -> (o: Option<usize>)
    requires
        state(w, d0, old(r), log), made_ins(w, *e), (w.has)(Edit::Ins(*e)),
        e.text.inserted_by != old(r).id || log.contains(Edit::Ins(*e)),
    ensures
        old(r).merged_ins(*e) || !old(r).ready_ins(*e) ==> state(w, d0, final(r), log),
        !old(r).merged_ins(*e) && old(r).ready_ins(*e) ==> state(w, d0, final(r), log.push(Edit::Ins(*e))),
{
    let ghost r0 = *r;
    proof { ins_genuine(w, d0, r, log, *e); }
    let o = r.integrate_insertion(e);
    proof {
        if r0.merged_ins(*e) { same_wf(&r0, r); stays(w, d0, &r0, log, r); same_kept(w, d0, &r0, log, r, log); }
        else if r0.ready_ins(*e) { add(w, d0, &r0, log, r, Edit::Ins(*e)); ins_backlogged(w, d0, &r0, log, r, log.push(Edit::Ins(*e)), *e); }
        else { stays(w, d0, &r0, log, r); ins_backlogged(w, d0, &r0, log, r, log, *e); }
    }
    o
}
pub fn vx_integrate_deletion(r: &mut Replica, d: &Deletion, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log): Ghost<Seq<Edit>>, Ghost(theirs): Ghost<Seq<Edit>>) -> (o: Vec<Range<usize>>)
    requires
        state(w, d0, old(r), log), made_del(w, d0, theirs, *d),
        d.version_map.this_id != old(r).id || log.contains(Edit::Del(*d)),
    ensures
        old(r).merged_del(*d) || !old(r).ready_del(*d) ==> state(w, d0, final(r), log),
        !old(r).merged_del(*d) && old(r).ready_del(*d) ==> state(w, d0, final(r), log.push(Edit::Del(*d))),
{
    let ghost r0 = *r;
    proof { del_genuine(w, d0, r, log, theirs, *d); }
    let o = r.integrate_deletion(d);
    proof {
        facts_of(w, d0, &r0, log);
        del_made(w, d0, theirs, *d);
        assert(kept_del(w, d0, &r0, log, *d));
        if r0.merged_del(*d) { same_wf(&r0, r); stays(w, d0, &r0, log, r); same_kept(w, d0, &r0, log, r, log); }
        else if r0.ready_del(*d) { add(w, d0, &r0, log, r, Edit::Del(*d)); del_backlogged(w, d0, &r0, log, r, log.push(Edit::Del(*d)), *d); }
        else { stays(w, d0, &r0, log, r); del_backlogged(w, d0, &r0, log, r, log, *d); }
    }
    o
}
/// A replica like `r`, with an id of its own.
pub fn vx_fork(r: &Replica, id: u64, Ghost(w): Ghost<World>, Ghost(d0): Ghost<Seq<Ch>>, Ghost(log): Ghost<Seq<Edit>>) -> (q: Replica)
    requires
        state(w, d0, r, log),
        // the id is nobody else's
        count(r.chars(), id) == 0, (w.runs0)(id) == 0, r.deletion_map.at(id) == 0,
        r.backlog.ins(id).len() == 0, r.backlog.dels(id).len() == 0,
        !r.version_map.rest@.contains_key(id),
        !r.deletion_map.rest@.contains_key(id),
    ensures state(w, d0, &q, log),
{
    let q = r.fork(id);
    proof {
        assert forall|i: int| 0 <= i < log.len() implies past(&q, #[trigger] log[i]) by { assert(past(r, log[i])); }
        assert forall|i: u64| #[trigger] q.nruns(i) == runs_at(w, i, count(q.chars(), i) as int) by { assert(r.nruns(i) == runs_at(w, i, count(r.chars(), i) as int)); }
        assert forall|id: u64, i: int| 0 <= i < q.backlog.ins(id).len() implies
            kept_ins(w, &q, log, #[trigger] q.backlog.ins(id)[i]) && !q.merged_ins(q.backlog.ins(id)[i]) by {
            kept_in_log(w, d0, r, log, id, i);
            assert(kept_ins(w, r, log, r.backlog.ins(id)[i]) && !r.merged_ins(r.backlog.ins(id)[i]));
        }
        assert forall|id: u64, i: int| 0 <= i < q.backlog.dels(id).len() implies
            kept_del(w, d0, &q, log, #[trigger] q.backlog.dels(id)[i]) && !q.merged_del(q.backlog.dels(id)[i]) by {
            kept_in_log(w, d0, r, log, id, i);
            assert(kept_del(w, d0, r, log, r.backlog.dels(id)[i]) && !r.merged_del(r.backlog.dels(id)[i]));
        }
    }
    q
}
