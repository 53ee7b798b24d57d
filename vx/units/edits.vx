// What local edits and anchors are, and how they relate to merging.
%use doclemmas.vx
%use clocks.vx
%raw
/// A local insertion.
pub open spec fn local_insert(s: Seq<Ch>, nr: spec_fn(u64) -> int, offset: int, text: Text, rc: RunClock, lc: LamportClock,
    s2: Seq<Ch>, nr2: spec_fn(u64) -> int, rc2: RunClock, lc2: LamportClock, a: InnerAnchor) -> bool
{
    let p = after_vis(s, offset);
    let id = text.inserted_by;
    let start = text.range.start as int;
    let end = text.range.end as int;
    &&& if offset == 0 { a.replica_id == 0 && a.offset == 0 && a.contained_in == 0 }
        else { 0 < p <= s.len() && a.replica_id == s[p - 1].id && a.offset == s[p - 1].off + 1 && a.contained_in == s[p - 1].run }
    &&& if offset > 0 && s[p - 1].id == id && s[p - 1].off + 1 == start && s[p - 1].lam == lc.0 - 1 {
        &&& s2 == splice(s, p, block(id, start, end, s[p - 1].run, s[p - 1].lam, false))
        &&& rc2 == rc
        &&& lc2 == lc
        &&& forall|i: u64| #[trigger] nr2(i) == nr(i)
    } else {
        &&& s2 == splice(s, p, block(id, start, end, rc.0, lc.0, false))
        &&& rc2.0 == rc.0 + 1
        &&& lc2.0 == lc.0 + 1
        &&& forall|i: u64| #[trigger] nr2(i) == if i == id { nr(i) + 1 } else { nr(i) }
    }
}
/// A local deletion of the visible characters from `from` up to `to`.
pub open spec fn local_delete(s: Seq<Ch>, from: int, to: int, s2: Seq<Ch>, r: (InnerAnchor, InnerAnchor)) -> bool {
    let p = after_vis(s, from + 1) - 1;
    let q = after_vis(s, to);
    &&& 0 <= p < q <= s.len()
    &&& s2 == mark(s, p, q)
    &&& r.0.replica_id == s[p].id && r.0.offset == s[p].off && r.0.contained_in == s[p].run
    &&& r.1.replica_id == s[q - 1].id && r.1.offset == s[q - 1].off + 1 && r.1.contained_in == s[q - 1].run
}
/// A visible character of `id` was deleted.
pub open spec fn deletes_of(s: Seq<Ch>, s2: Seq<Ch>, id: u64) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id && !s[i].del && s2[i].del
}
/// The anchor created at an offset.
pub open spec fn anchored(s: Seq<Ch>, at: int, bias: AnchorBias, r: Anchor) -> bool {
    &&& r.bias == bias
    &&& match bias {
        AnchorBias::Left => if at == 0 { r.inner.replica_id == 0 && r.inner.offset == 0 } else {
            let c = s[after_vis(s, at) - 1];
            r.inner.replica_id == c.id && r.inner.offset == c.off + 1 && r.inner.contained_in == c.run
        },
        AnchorBias::Right => if at == vis(s) { r.inner.replica_id == 0 && r.inner.offset == 0 } else {
            let c = s[after_vis(s, at + 1) - 1];
            r.inner.replica_id == c.id && r.inner.offset == c.off && r.inner.contained_in == c.run
        },
    }
}
/// The character an anchor is next to is there.
pub open spec fn anchor_ok(s: Seq<Ch>, a: Anchor) -> bool {
    let o = if a.bias == AnchorBias::Left { a.inner.offset - 1 } else { a.inner.offset as int };
    a.inner.replica_id != 0 ==> {
        &&& o >= 0
        &&& at(s, a.inner.replica_id, o) >= 0
        &&& s[at(s, a.inner.replica_id, o)].run == a.inner.contained_in
    }
}
/// Where an anchor is.
pub open spec fn resolved(s: Seq<Ch>, a: Anchor) -> int {
    if a.inner.replica_id == 0 {
        if a.bias == AnchorBias::Left { 0 } else { vis(s) as int }
    } else if a.bias == AnchorBias::Left {
        vis(s.subrange(0, at(s, a.inner.replica_id, a.inner.offset - 1) + 1)) as int
    } else {
        vis(s.subrange(0, at(s, a.inner.replica_id, a.inner.offset as int))) as int
    }
}

/// Merging the insertion elsewhere does what making it does here.
pub proof fn local_is_merge(s: Seq<Ch>, nr: spec_fn(u64) -> int, offset: int, rc: RunClock, lc: LamportClock,
    s2: Seq<Ch>, nr2: spec_fn(u64) -> int, rc2: RunClock, lc2: LamportClock, ins: Insertion)
    requires
        local_insert(s, nr, offset, ins.text, rc, lc, s2, nr2, rc2, lc2, ins.anchor),
        0 <= offset <= vis(s),
        runs_ok(s, nr), ages_ok(s), young(s, lc.0),
        ins.text.inserted_by != 0,
        ins.text.range.start < ins.text.range.end,
        ins.text.range.start == count(s, ins.text.inserted_by),
        s.len() + (ins.text.range.end - ins.text.range.start) <= usize::MAX,
        rc.0 == nr(ins.text.inserted_by), rc.0 < u64::MAX, 1 <= lc.0 < u64::MAX,
        ins.lamport_ts == lc2.0 - 1,
        ins.run_ts == rc2.0 - 1,
    ensures
        ins_ok(s, nr(ins.text.inserted_by), ins),
        s2 == merge_ins(s, ins),
        runs_after(nr, nr2, ins),
        runs_ok(s2, nr2), ages_ok(s2), young(s2, lc2.0),
        rc2.0 == nr2(ins.text.inserted_by),
{
    let p = after_vis(s, offset);
    let id = ins.text.inserted_by;
    after_vis_is(s, offset);
    if offset > 0 { at_only(s, p - 1); }
    assert(anchor_place(s, ins.anchor) == p);
    if p < s.len() && p > 0 {
        assert(age_pair(s, p - 1));
    }
    if p < s.len() && s[p].id == id { at_only(s, p); }
    scan_only(s, p, ins.lamport_ts, id, p);
    merge_runs_ok(s, nr, nr2, ins);
    merge_ages_ok(s, nr, ins);
    merge_young(s, nr(id), ins, lc.0, lc2.0);
}
pub proof fn local_delete_is(s: Seq<Ch>, nr: spec_fn(u64) -> int, from: int, to: int, lam: u64)
    requires 0 <= from < to <= vis(s), runs_ok(s, nr), ages_ok(s), young(s, lam),
    ensures
        ({
            let p = after_vis(s, from + 1) - 1;
            let q = after_vis(s, to);
            &&& 0 <= p < q <= s.len() && !s[p].del && !s[q - 1].del
            &&& vis(s.subrange(0, p)) == from && vis(s.subrange(0, q)) == to
            &&& runs_ok(mark(s, p, q), nr) && ages_ok(mark(s, p, q)) && young(mark(s, p, q), lam)
            &&& forall|id: u64| #[trigger] count(mark(s, p, q), id) == count(s, id)
        }),
{
    let p = after_vis(s, from + 1) - 1;
    let q = after_vis(s, to);
    after_vis_is(s, from + 1);
    after_vis_is(s, to);
    if from + 1 < to { after_vis_order(s, from + 1, to); }
    twins_keep(s, mark(s, p, q), nr, lam);
}
/// Merging the deletion elsewhere does what making it does here.
pub proof fn local_delete_is_merge(s: Seq<Ch>, nr: spec_fn(u64) -> int, from: int, to: int, s2: Seq<Ch>, d: Deletion, vm: VersionMap, lam: u64)
    requires
        0 <= from < to <= vis(s), runs_ok(s, nr), ages_ok(s), young(s, lam),
        local_delete(s, from, to, s2, (d.start, d.end)),
        forall|id: u64| (#[trigger] vm.at(id)) == count(s, id),
        forall|id: u64| #[trigger] deletes_of(s, s2, id) ==> d.version_map.at(id) == vm.at(id),
    ensures
        del_ok(s, d),
        s2 == merge_del(s, d),
        runs_ok(s2, nr), ages_ok(s2), young(s2, lam),
        forall|id: u64| #[trigger] count(s2, id) == count(s, id),
{
    let p = after_vis(s, from + 1) - 1;
    let q = after_vis(s, to);
    local_delete_is(s, nr, from, to, lam);
    at_only(s, p);
    at_only(s, q - 1);
    assert forall|i: int| p <= i < q && !(#[trigger] s[i]).del implies known(s[i], d.version_map) by {
        assert(s2[i].del);
        assert(deletes_of(s, s2, s[i].id));
        assert(vm.at(s[i].id) == count(s, s[i].id));
    }
    assert(known(s[p], d.version_map) && known(s[q - 1], d.version_map));
    mark_is_known(s, p, q, d.version_map);
}
pub proof fn merge_del_keeps(s: Seq<Ch>, nr: spec_fn(u64) -> int, d: Deletion, lam: u64)
    ensures
        forall|id: u64| #[trigger] count(merge_del(s, d), id) == count(s, id),
        runs_ok(s, nr) ==> runs_ok(merge_del(s, d), nr),
        ages_ok(s) ==> ages_ok(merge_del(s, d)),
        young(s, lam) ==> young(merge_del(s, d), lam),
        twins(s, merge_del(s, d)),
{
    twins_keep(s, merge_del(s, d), nr, lam);
}
/// An anchor made here can be resolved here.
pub proof fn anchored_is_ok(s: Seq<Ch>, n: int, bias: AnchorBias, r: Anchor)
    requires gap_free(s), 0 <= n <= vis(s), anchored(s, n, bias, r),
    ensures
        anchor_ok(s, r),
        r.inner.replica_id != 0 ==> r.inner.offset <= count(s, r.inner.replica_id) && (bias == AnchorBias::Right ==> r.inner.offset < count(s, r.inner.replica_id)),
        resolved(s, r) == n,
{
    after_vis_is(s, n);
    if bias == AnchorBias::Left {
        if n > 0 { at_only(s, after_vis(s, n) - 1); }
    } else if n < vis(s) {
        after_vis_is(s, n + 1);
        at_only(s, after_vis(s, n + 1) - 1);
    }
}
