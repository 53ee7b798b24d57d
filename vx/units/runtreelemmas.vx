// What RunTree's functions do to the document, put together.
%use leaflemmas.vx
%use treelemmas.vx
%use marklemmas.vx
%raw
pub proof fn cat_extend(ls: Ls, k: int, run: EditRun, idx: LeafIdx<EditRun>)
    requires leaves_ok(ls), 0 <= k < ls.len(), run.wf(), appendable(ls[k].v, run), ls[k].v.wf(), idx == ls[k].idx,
    ensures
        ({
            let l = lf(idx, extended(ls[k].v, run));
            &&& leaves_ok(ls.update(k, l))
            &&& cat(ls.update(k, l)) == splice(cat(ls), pos(ls, k + 1), run.chars())
            &&& cat(ls.update(k, l)).len() == cat(ls).len() + run.n()
            &&& forall|id: u64| #[trigger] count(cat(ls.update(k, l)), id) == count(cat(ls), id) + if id == run.text.inserted_by { run.n() } else { 0 }
        }),
{
    let l = lf(idx, extended(ls[k].v, run));
    let s = cat(ls);
    cat_leaf(ls, k);
    cat_update(ls, k, l);
    assert(l.v.chars() =~= ls[k].v.chars() + run.chars());
    let x = s.subrange(0, pos(ls, k));
    let y = s.subrange(pos(ls, k + 1), s.len() as int);
    assert(x + ls[k].v.chars() =~= s.subrange(0, pos(ls, k + 1)));
    assert(cat(ls.update(k, l)) =~= splice(s, pos(ls, k + 1), run.chars()));
    let v = run;
    assert forall|id: u64| #[trigger] count(cat(ls.update(k, l)), id) == count(cat(ls), id) + if id == run.text.inserted_by { run.n() } else { 0 } by {
        count_splice(s, pos(ls, k + 1), v.chars(), id);
        count_block(v.text.inserted_by, v.text.range.start as int, v.text.range.end as int, v.run_ts, v.lamport_ts, v.is_deleted, id);
    }
}
pub proof fn leaf_added(t: RunTree, t2: RunTree, k: int, l: Lf<EditRun>)
    requires
        can_add(t, l.v), 0 <= k <= t.ls().len(), fresh(t.ls(), l.idx),
        t2.gtree.wf(), t2.ls() == t.ls().insert(k, l),
        tables_grown(t.run_indices, t2.run_indices, l),
        k == 0 || t.ls()[k - 1].v.n() > 0,
    ensures grown(t, t2, pos(t.ls(), k), l.v, vsum(t.ls(), k)),
{
    let ls = t.ls();
    tables_insert(ls, t.run_indices, t2.run_indices, k, l);
    cat_insert(ls, k, l);
    cat_cut(ls, k);
    distinct_insert(ls, k, l);
    let m = ls.insert(k, l);
    assert forall|e: int| 0 <= e < m.len() && (#[trigger] m[e]).v.n() == 0 implies {
        &&& e == m.len() - 1
        &&& m[e].v.lamport_ts == 0
        &&& !m[e].v.is_deleted
        &&& forall|j: int| 0 <= j < e ==> (#[trigger] m[j]).v.lamport_ts > 0
    } by {
        assert(e != k);
        if e < k { assert(ls[e].v.n() == 0); assert(e == ls.len() - 1); assert(k == ls.len()); assert(ls[k - 1].v.n() > 0); }
        else {
            assert(m[e] == ls[e - 1]);
            assert forall|j: int| 0 <= j < e implies (#[trigger] m[j]).v.lamport_ts > 0 by {
                if j < k { assert(m[j] == ls[j]); } else if j > k { assert(m[j] == ls[j - 1]); }
            }
        }
    }
}
/// A leaf that's longer.
pub proof fn leaf_extended(t: RunTree, t2: RunTree, k: int, run: EditRun)
    requires
        t.tree_ok(), empty_ok(t.ls()), 0 <= k < t.ls().len(), run.wf(), run.n() > 0, !run.is_deleted,
        appendable(t.ls()[k].v, run), t.ls()[k].v.n() > 0,
        cat(t.ls()).len() + run.n() <= usize::MAX,
        run.run_ts + 1 == t.run_indices.of(run.text.inserted_by).len(),
        t2.gtree.wf(), t2.ls() == t.ls().update(k, lf(t.ls()[k].idx, extended(t.ls()[k].v, run))),
        forall|i: u64| i != run.text.inserted_by ==> #[trigger] t2.run_indices.of(i) == t.run_indices.of(i),
        table_ok(t2.run_indices.of(run.text.inserted_by)),
        t2.run_indices.of(run.text.inserted_by).len() == t.run_indices.of(run.text.inserted_by).len(),
        sum(t2.run_indices.of(run.text.inserted_by)) == sum(t.run_indices.of(run.text.inserted_by)) + run.n(),
        ({
            let x = fr_of(t.ls()[k]);
            let y = fr_of(lf(t.ls()[k].idx, extended(t.ls()[k].v, run)));
            parts_become(t.run_indices.of(run.text.inserted_by), t2.run_indices.of(run.text.inserted_by), x, y, y)
        }),
    ensures grown(t, t2, pos(t.ls(), k + 1), run, vsum(t.ls(), k + 1)),
{
    let ls = t.ls();
    let l = lf(ls[k].idx, extended(ls[k].v, run));
    let m = ls.update(k, l);
    cat_leaf(ls, k);
    cat_cut(ls, k + 1);
    cat_extend(ls, k, run, l.idx);
    tables_update(ls, t.run_indices, t2.run_indices, k, l);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).idx != (#[trigger] m[j]).idx by {
        assert(ls[i].idx != ls[j].idx);
    }
    assert forall|e: int| 0 <= e < m.len() && (#[trigger] m[e]).v.n() == 0 implies e == m.len() - 1 && m[e].v.lamport_ts == 0 && !m[e].v.is_deleted
        && forall|j: int| 0 <= j < e ==> (#[trigger] m[j]).v.lamport_ts > 0 by {
        assert(ls[e].v.n() == 0);
        assert forall|j: int| 0 <= j < e implies (#[trigger] m[j]).v.lamport_ts > 0 by { assert(ls[j].v.lamport_ts > 0); }
    }
}
/// A leaf in two, a run between.
pub proof fn leaf_split(t: RunTree, t2: RunTree, ri1: RunIndices, k: int, o: int, l: Lf<EditRun>, a: Lf<EditRun>, b: Lf<EditRun>)
    requires
        can_add(t, l.v), 0 <= k < t.ls().len(), fresh(t.ls(), l.idx), fresh(t.ls(), b.idx), l.idx != b.idx, a.idx == t.ls()[k].idx,
        0 < o < t.ls()[k].v.n(),
        a.v.part(&t.ls()[k].v, 0, o), a.v.is_deleted == t.ls()[k].v.is_deleted,
        b.v.part(&t.ls()[k].v, o, t.ls()[k].v.n()), b.v.is_deleted == t.ls()[k].v.is_deleted,
        t2.gtree.wf(), t2.ls() == t.ls().update(k, a).insert(k + 1, l).insert(k + 2, b),
        tables_grown(t.run_indices, ri1, l),
        forall|i: u64| i != a.v.text.inserted_by ==> #[trigger] t2.run_indices.of(i) == ri1.of(i),
        table_ok(t2.run_indices.of(a.v.text.inserted_by)),
        shape_same(ri1.of(a.v.text.inserted_by), t2.run_indices.of(a.v.text.inserted_by)),
        parts_become(ri1.of(a.v.text.inserted_by), t2.run_indices.of(a.v.text.inserted_by), fr_of(t.ls()[k]), fr_of(a), fr_of(b)),
    ensures
        grown(t, t2, pos(t.ls(), k) + o, l.v, vsum(t.ls(), k) + if t.ls()[k].v.is_deleted { 0 } else { o }),
{
    let ls = t.ls();
    let m = ls.update(k, a).insert(k + 1, b);
    let ls1 = ls.insert(k + 1, l);
    let fin = t2.ls();
    cat_split(ls, k, a, b, o);
    cat_insert(m, k + 1, l);
    cat_insert(ls, k + 1, l);
    leaf_vis(ls, k, o);
    assert(m.insert(k + 1, l) =~= fin);
    assert(ls1.update(k, a).insert(k + 2, b) =~= fin);
    distinct_insert(ls, k + 1, l);
    tables_insert(ls, t.run_indices, ri1, k + 1, l);
    assert(ls1[k] == ls[k]);
    tables_split(ls1, ri1, t2.run_indices, k, k + 2, a, b);
    assert forall|i: u64| (#[trigger] t2.run_indices.of(i)).len() == if i == l.v.text.inserted_by { l.v.run_ts + 1 } else { t.run_indices.of(i).len() as int } by {
        if i != l.v.text.inserted_by { assert(ri1.of(i) == t.run_indices.of(i)); }
    }
    let w = ls1.update(k, a);
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).idx != (#[trigger] w[j]).idx by { assert(ls1[i].idx != ls1[j].idx); }
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).idx != b.idx by {
        if i <= k { assert(w[i].idx == ls[i].idx); } else if i > k + 1 { assert(w[i] == ls[i - 1]); }
    }
    distinct_insert(w, k + 2, b);
    assert forall|e: int| 0 <= e < fin.len() && (#[trigger] fin[e]).v.n() == 0 implies {
        &&& e == fin.len() - 1
        &&& fin[e].v.lamport_ts == 0
        &&& !fin[e].v.is_deleted
        &&& forall|j: int| 0 <= j < e ==> (#[trigger] fin[j]).v.lamport_ts > 0
    } by {
        if e < k { assert(fin[e] == ls[e]); assert(e == ls.len() - 1); }
        else {
            assert(e != k && e != k + 1 && e != k + 2);
            assert(fin[e] == ls[e - 2]);
            assert forall|j: int| 0 <= j < e implies (#[trigger] fin[j]).v.lamport_ts > 0 by {
                if j < k { assert(fin[j] == ls[j]); } else if j > k + 2 { assert(fin[j] == ls[j - 2]); }
                else { assert(ls[k].v.lamport_ts > 0); }
            }
        }
    }
}
pub proof fn grown_is_merge(t: RunTree, t2: RunTree, ins: Insertion, run: EditRun, r: int)
    requires
        t.wf(), ins_ok(t.chars(), t.nruns()(ins.text.inserted_by), ins),
        run.text == ins.text, run.run_ts == ins.run_ts, run.lamport_ts == ins.lamport_ts, !run.is_deleted,
        grown(t, t2, ins_place(t.chars(), ins), run, r),
    ensures
        t2.wf(),
        t2.chars() == merge_ins(t.chars(), ins),
        r == vis(t.chars().subrange(0, ins_place(t.chars(), ins))),
        forall|id: u64| (#[trigger] t2.nruns()(id)) == (if id == ins.text.inserted_by { ins.run_ts + 1 } else { t.nruns()(id) }),
{
    t.unfold();
    assert forall|id: u64| (#[trigger] t2.nruns()(id)) == (if id == ins.text.inserted_by { ins.run_ts + 1 } else { t.nruns()(id) }) by {
        reveal(RunTree::nruns);
        assert(t2.run_indices.of(id).len() == if id == ins.text.inserted_by { ins.run_ts + 1 } else { t.run_indices.of(id).len() as int });
    }
    merge_runs_ok(t.chars(), t.nruns(), t2.nruns(), ins);
    assert(cat(t2.ls()) == merge_ins(t.chars(), ins));
    t2.fold();
}
/// What can be merged can be added.
pub proof fn ins_can_add(t: RunTree, ins: Insertion, run: EditRun)
    requires
        t.wf(), ins_ok(t.chars(), t.nruns()(ins.text.inserted_by), ins),
        run.text == ins.text, run.run_ts == ins.run_ts, run.lamport_ts == ins.lamport_ts, !run.is_deleted,
    ensures can_add(t, run),
{
    t.unfold();
    let ls = t.ls();
    let s = t.chars();
    let id = ins.text.inserted_by;
    assert(sum(t.run_indices.of(id)) == count(cat(ls), id));
    if ins.anchor.replica_id == id && ins.anchor.contained_in == ins.run_ts {
        let k = char_known(ls, t.run_indices, id, ins.text.range.start - 1);
        assert(t.run_indices.of(id).len() == t.nruns()(id));
        assert(base(t.run_indices.of(id), ins.run_ts + 1) == base(t.run_indices.of(id), ins.run_ts as int) + total(t.run_indices.of(id).last().0@));
        assert(ls[k].v.n() > 0);
        char_leaf(ls, id, ins.text.range.start - 1, k);
        assert(ls[k].v.lamport_ts == ins.lamport_ts);
        assert forall|e: int| 0 <= e < ls.len() && (#[trigger] ls[e]).v.n() == 0 implies run.lamport_ts > 0 by {
            assert(k != e && e == ls.len() - 1);
        }
    } else {
        assert(t.run_indices.of(id).len() == t.nruns()(id));
    }
}
impl RunTree {
    pub proof fn unfold(&self)
        requires self.wf(),
        ensures
            self.tree_ok(),
            empty_ok(self.ls()),
            runs_ok(self.chars(), self.nruns()),
            self.chars() == cat(self.ls()),
            self.ls().len() > 0,
            self.chars().len() == pos(self.ls(), self.ls().len() as int),
            vis(self.chars()) == vsum(self.ls(), self.ls().len() as int),
            vis(self.chars()) <= self.chars().len(),
            forall|id: u64| #[trigger] self.nruns()(id) == self.run_indices.of(id).len(),
            forall|id: u64| (#[trigger] self.run_indices.of(id)).len() == self.nruns()(id),
            forall|i: int| 0 <= i < self.ls().len() ==> (#[trigger] self.ls()[i]).idx != LeafIdx::<EditRun>::nowhere(),
    {
        reveal(RunTree::wf);
        reveal(RunTree::chars);
        reveal(RunTree::nruns);
        self.gtree.facts();
        cat_cut(self.ls(), 0);
        vis_le(self.chars());
    }
    pub proof fn fold(&self)
        requires self.tree_ok(), empty_ok(self.ls()), runs_ok(cat(self.ls()), self.nruns()),
        ensures self.wf(), self.chars() == cat(self.ls()),
    {
        reveal(RunTree::wf);
        reveal(RunTree::chars);
    }
}
pub open spec fn erasing(ls: Ls, ls1: Ls, ri: RunIndices, k: int, r: URange<usize>, v: EditRun, more: (Option<EditRun>, Option<EditRun>), x: (Option<LeafIdx<EditRun>>, Option<LeafIdx<EditRun>>)) -> bool {
    &&& doc_ok(ls, ri)
    &&& 0 <= k < ls.len()
    &&& !ls[k].v.is_deleted
    &&& r.start < r.end <= ls[k].v.n()
    &&& cut_out(ls[k].v, r.start as int, r.end as int, v, more)
    &&& put_deleted(ls, ls1, k, v, more, x)
    &&& forall|i: int| 0 <= i < ls1.len() ==> (#[trigger] ls1[i]).idx != LeafIdx::<EditRun>::nowhere()
}
pub proof fn erase_leaf_before(ls: Ls, ls1: Ls, ri: RunIndices, k: int, r: URange<usize>, v: EditRun, more: (Option<EditRun>, Option<EditRun>), x: (Option<LeafIdx<EditRun>>, Option<LeafIdx<EditRun>>))
    requires erasing(ls, ls1, ri, k, r, v, more, x),
    ensures
        ({
            let id = ls[k].v.text.inserted_by;
            let n = ls[k].v.n();
            &&& has_part(ri.of(id), fr_of(ls[k]))
            &&& table_ok(ri.of(id))
            &&& ls[k].v.run_ts < ri.of(id).len()
            &&& ls[k].v.wf()
            &&& x.0 is Some ==> x.0->Some_0 != LeafIdx::<EditRun>::nowhere() && has_idx(ls1, x.0->Some_0) && at_idx(ls1, x.0->Some_0) == k + 1
            &&& x.1 is Some ==> x.0 is Some && x.1->Some_0 != LeafIdx::<EditRun>::nowhere() && has_idx(ls1, x.1->Some_0) && at_idx(ls1, x.1->Some_0) == k + 2
            &&& has_idx(ls1, ls[k].idx) && at_idx(ls1, ls[k].idx) == k
            &&& x.1 is Some <==> r.start > 0 && r.end < n
            &&& x.0 is None && r.end - r.start < n ==> {
                &&& r.start == 0 || r.end == n
                &&& r.start == 0 ==> k > 0 && has_part(ri.of(id), fr_of(ls[k - 1])) && fr_of(ls[k - 1]).run == ls[k].v.run_ts
                    && ls[k - 1].v.text.range.end == ls[k].v.text.range.start && ls[k - 1].v.n() > 0
                &&& r.start > 0 ==> k + 1 < ls.len() && has_part(ri.of(id), fr_of(ls[k + 1])) && fr_of(ls[k + 1]).run == ls[k].v.run_ts
                    && ls[k].v.text.range.end == ls[k + 1].v.text.range.start
            }
            &&& (x.0 is Some && x.1 is None) ==> r.start == 0 || r.end == n
            &&& (x.0 is Some && x.1 is None) ==> r.end - r.start < n
        }),
{
    leaf_part(ls, ri, k);
    assert(ls[k].v.wf());
    assert(table_ok(ri.of(ls[k].v.text.inserted_by)));
    let n = ls[k].v.n();
    let a = lf(ls[k].idx, v);
    let u = ls.update(k, a);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).idx != (#[trigger] u[j]).idx by { assert(ls[i].idx != ls[j].idx); }
    if put(ls, ls1, k, v, more, x) {
        if more.0 is Some {
            let b = lf(x.0->Some_0, more.0->Some_0);
            let m = u.insert(k + 1, b);
            assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).idx != b.idx by { assert(u[i].idx == ls[i].idx); }
            distinct_insert(u, k + 1, b);
            if more.1 is Some {
                let c = lf(x.1->Some_0, more.1->Some_0);
                assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).idx != c.idx by {
                    if i <= k { assert(m[i].idx == ls[i].idx); } else if i > k + 1 { assert(m[i] == ls[i - 1]); }
                }
                distinct_insert(m, k + 2, c);
                assert(ls1[k + 2].idx == x.1->Some_0);
                idx_only(ls1, k + 2);
            }
            assert(ls1[k + 1].idx == x.0->Some_0);
            idx_only(ls1, k + 1);
        }
        assert(ls1[k].idx == ls[k].idx);
        idx_only(ls1, k);
    } else {
        assert(ls1.len() == ls.len());
        assert forall|i: int| 0 <= i < ls.len() implies (#[trigger] ls1[i]).idx == ls[i].idx by {}
        assert forall|i: int, j: int| 0 <= i < j < ls1.len() implies (#[trigger] ls1[i]).idx != (#[trigger] ls1[j]).idx by { assert(ls[i].idx != ls[j].idx); }
        idx_only(ls1, k);
        if r.start == 0 {
            leaf_part(ls, ri, k - 1);
            assert(ls[k - 1].v.is_deleted);
            assert(ls[k - 1].v.n() > 0) by { assert(ls[k - 1].v.wf()); if ls[k - 1].v.n() == 0 { assert(!ls[k - 1].v.is_deleted); } }
        } else {
            leaf_part(ls, ri, k + 1);
        }
    }
}
/// What the tables are after that.
pub open spec fn erased_tables(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, r: URange<usize>, x: (Option<LeafIdx<EditRun>>, Option<LeafIdx<EditRun>>)) -> bool {
    let id = ls[k].v.text.inserted_by;
    let n = ls[k].v.n();
    let w = fr_of(ls[k]);
    let v = ri.of(id);
    let v2 = ri2.of(id);
    &&& forall|i: u64| i != id ==> #[trigger] ri2.of(i) == ri.of(i)
    &&& table_ok(v2)
    &&& shape_same(v, v2)
    &&& if x.0 is None {
        if r.end - r.start < n {
            if r.start == 0 { two_become(v, v2, w, fr_of(ls[k - 1]), moved_from(w, true, r.end as int), moved_to(fr_of(ls[k - 1]), true, r.end as int)) }
            else { two_become(v, v2, w, fr_of(ls[k + 1]), moved_from(w, false, n - r.start), moved_to(fr_of(ls[k + 1]), false, n - r.start)) }
        } else { v2 == v }
    } else if x.1 is None {
        let o = if r.start == 0 { r.end as int } else { r.start as int };
        parts_become(v, v2, w, Fr { len: o, ..w }, Fr { start: w.start + o, len: n - o, idx: x.0->Some_0, ..w })
    } else {
        let y = Fr { len: r.start as int, ..w };
        let z = Fr { start: w.start + r.start, len: n - r.start, idx: x.0->Some_0, ..w };
        exists|rm: RunIndices| {
            &&& forall|i: u64| i != id ==> #[trigger] rm.of(i) == ri.of(i)
            &&& table_ok(rm.of(id))
            &&& shape_same(v, rm.of(id))
            &&& #[trigger] parts_become(v, rm.of(id), w, y, z)
            &&& parts_become(rm.of(id), v2, z, Fr { len: r.end - r.start, ..z }, Fr { start: w.start + r.end, len: n - r.end, idx: x.1->Some_0, ..z })
        }
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
pub proof fn erase_leaf(ls: Ls, ls1: Ls, ri: RunIndices, ri2: RunIndices, k: int, r: URange<usize>, v: EditRun, more: (Option<EditRun>, Option<EditRun>), x: (Option<LeafIdx<EditRun>>, Option<LeafIdx<EditRun>>))
    requires
        erasing(ls, ls1, ri, k, r, v, more, x),
        erased_tables(ls, ri, ri2, k, r, x),
    ensures
        doc_ok(ls1, ri2),
        cat(ls1) == mark(cat(ls), pos(ls, k) + r.start, pos(ls, k) + r.end),
        same_size(ri, ri2),
        0 <= pos(ls, k) && pos(ls, k) + ls[k].v.n() <= cat(ls).len(),
{
    erase_leaf_before(ls, ls1, ri, k, r, v, more, x);
    let v0 = ls[k].v;
    let n = v0.n();
    let id = v0.text.inserted_by;
    let s = cat(ls);
    let idx = ls[k].idx;
    cat_leaf(ls, k);
    assert(ls[k].v.wf());
    if x.0 is Some {
        let o = if r.start == 0 { r.end as int } else { r.start as int };
        let a = lf(idx, part_of(v0, 0, o));
        let b = lf(x.0->Some_0, part_of(v0, o, n));
        if x.1 is None {
            split_doc(ls, ri, ri2, k, a, b, o);
            let m = ls.update(k, a).insert(k + 1, b);
            if r.start == 0 {
                gone_leaf(m, ri2, k);
                assert(m.update(k, gone(a)) =~= ls1);
            } else {
                gone_leaf(m, ri2, k + 1);
                assert(m.update(k + 1, gone(b)) =~= ls1);
            }
        } else {
            let w = fr_of(ls[k]);
            let y = Fr { len: r.start as int, ..w };
            let z = Fr { start: w.start + r.start, len: n - r.start, idx: x.0->Some_0, ..w };
            let rm = choose|rm: RunIndices| {
                &&& forall|i: u64| i != id ==> #[trigger] rm.of(i) == ri.of(i)
                &&& table_ok(rm.of(id))
                &&& shape_same(ri.of(id), rm.of(id))
                &&& #[trigger] parts_become(ri.of(id), rm.of(id), w, y, z)
                &&& parts_become(rm.of(id), ri2.of(id), z, Fr { len: r.end - r.start, ..z }, Fr { start: w.start + r.end, len: n - r.end, idx: x.1->Some_0, ..z })
            };
            split_doc(ls, ri, rm, k, a, b, o);
            let m = ls.update(k, a).insert(k + 1, b);
            let c = lf(b.idx, part_of(v0, r.start as int, r.end as int));
            let d = lf(x.1->Some_0, part_of(v0, r.end as int, n));
            assert(m[k + 1] == b);
            assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).idx != d.idx by {
                if i <= k { assert(m[i].idx == ls[i].idx); } else if i > k + 1 { assert(m[i] == ls[i - 1]); }
            }
            assert forall|i: u64| i != id implies #[trigger] ri2.of(i) == rm.of(i) by { assert(rm.of(i) == ri.of(i)); }
            split_doc(m, rm, ri2, k + 1, c, d, r.end - r.start);
            let m2 = m.update(k + 1, c).insert(k + 2, d);
            gone_leaf(m2, ri2, k + 1);
            assert(m2.update(k + 1, gone(c)) =~= ls1);
        }
    } else if r.end - r.start < n {
        if r.start == 0 {
            leaf_part(ls, ri, k - 1);
            cat_leaf(ls, k - 1);
            assert(ls[k - 1].v.wf());
            let a = lf(ls[k - 1].idx, extended(ls[k - 1].v, v));
            let b = lf(idx, more.0->Some_0);
            assert(ls1 =~= ls.update(k - 1, a).update(k, b));
            let w = fr_of(ls[k]);
            assert(fr_of(b) == moved_from(w, true, r.end as int));
            assert(fr_of(a) == moved_to(fr_of(ls[k - 1]), true, r.end as int));
            border(ls, ri, ri2, k - 1, a, b, pos(ls, k), pos(ls, k) + r.end);
        } else {
            leaf_part(ls, ri, k + 1);
            cat_leaf(ls, k + 1);
            assert(ls[k + 1].v.wf());
            assert(ls[k + 1].v.n() > 0) by { if ls[k + 1].v.n() == 0 { assert(!ls[k + 1].v.is_deleted); } }
            let a = lf(idx, v);
            let b = lf(ls[k + 1].idx, extended(more.0->Some_0, ls[k + 1].v));
            assert(ls1 =~= ls.update(k, a).update(k + 1, b));
            let w = fr_of(ls[k]);
            assert(fr_of(a) == moved_from(w, false, n - r.start));
            assert(fr_of(b) == moved_to(fr_of(ls[k + 1]), false, n - r.start));
            border(ls, ri, ri2, k, a, b, pos(ls, k) + r.start, pos(ls, k) + n);
        }
    } else {
        assert forall|i: u64| #[trigger] ri2.of(i) == ri.of(i) by {}
        assert(ls1 =~= ls.update(k, gone(ls[k])));
        gone_leaf(ls, ri, k);
        tables_same(ls1, ri, ri2);
    }
}
/// The leaf that `delete_leaf_range` returns.
pub open spec fn returned(ls: Ls, ls2: Ls, k: int, r: URange<usize>, x: (Option<LeafIdx<EditRun>>, Option<LeafIdx<EditRun>>), ret: LeafIdx<EditRun>) -> bool {
    if x.1 is Some { ret == x.1->Some_0 }
    else if x.0 is Some {
        if r.start == 0 { ret == x.0->Some_0 }
        else { ret == if k + 2 < ls2.len() { ls2[k + 2].idx } else { x.0->Some_0 } }
    } else if r.end - r.start < ls[k].v.n() && r.start == 0 { ret == ls[k].idx }
    else { ret == if k + 1 < ls2.len() { ls2[k + 1].idx } else { ls[k].idx } }
}
pub proof fn erased_follows(t: RunTree, t2: RunTree, k: int, r: URange<usize>, v: EditRun, more: (Option<EditRun>, Option<EditRun>), x: (Option<LeafIdx<EditRun>>, Option<LeafIdx<EditRun>>), ret: LeafIdx<EditRun>)
    requires
        t.tree_ok(), t2.gtree.wf(),
        erasing(t.ls(), t2.ls(), t.run_indices, k, r, v, more, x),
        erased_tables(t.ls(), t.run_indices, t2.run_indices, k, r, x),
        returned(t.ls(), t2.ls(), k, r, x, ret),
    ensures
        erased(t, t2, pos(t.ls(), k) + r.start, pos(t.ls(), k) + r.end),
        followed(t.ls(), t2.ls(), k, r.start as int, r.end as int, ret),
{
    let ls = t.ls();
    let ls2 = t2.ls();
    let ri = t.run_indices;
    erase_leaf(ls, ls2, ri, t2.run_indices, k, r, v, more, x);
    let n = ls[k].v.n();
    cat_leaf(ls, k);
    assert(cat(ls2).len() == cat(ls).len());
    assert(t2.tree_ok());
    if x.1 is Some {
        pos_same(ls2, ls, k);
        assert(ls2[k] == lf(ls[k].idx, v));
        assert(ls2[k + 1] == lf(x.0->Some_0, more.0->Some_0));
        assert(ls2[k + 2] == lf(x.1->Some_0, more.1->Some_0));
        assert(pos(ls2, k + 1) == pos(ls2, k) + v.n());
        assert(pos(ls2, k + 2) == pos(ls2, k + 1) + ls2[k + 1].v.n());
        idx_only(ls2, k + 2);
        assert(ls2.subrange(k + 3, ls2.len() as int) =~= ls.subrange(k + 1, ls.len() as int));
    } else if x.0 is Some {
        pos_same(ls2, ls, k);
        assert(ls2[k] == lf(ls[k].idx, v));
        assert(ls2[k + 1] == lf(x.0->Some_0, more.0->Some_0));
        assert(pos(ls2, k + 1) == pos(ls2, k) + v.n());
        assert(pos(ls2, k + 2) == pos(ls2, k + 1) + ls2[k + 1].v.n());
        if r.start == 0 {
            idx_only(ls2, k + 1);
            assert(ls2.subrange(k + 2, ls2.len() as int) =~= ls.subrange(k + 1, ls.len() as int));
        } else if k + 1 < ls.len() {
            assert(ls2[k + 2] == ls[k + 1]);
            idx_only(ls2, k + 2);
            assert(ls2.subrange(k + 3, ls2.len() as int) =~= ls.subrange(k + 2, ls.len() as int));
        }
    } else if r.end - r.start < n {
        erase_leaf_before(ls, ls2, ri, k, r, v, more, x);
        if r.start == 0 {
            pos_same(ls2, ls, k - 1);
            let a = lf(ls[k - 1].idx, extended(ls[k - 1].v, v));
            assert(ls2[k - 1] == a);
            assert(ls2[k] == lf(ls[k].idx, more.0->Some_0));
            cat_leaf(ls, k - 1);
            assert(pos(ls2, k) == pos(ls2, k - 1) + a.v.n());
            idx_only(ls2, k);
            assert(ls2.subrange(k + 1, ls2.len() as int) =~= ls.subrange(k + 1, ls.len() as int));
        } else {
            pos_same(ls2, ls, k);
            let b = lf(ls[k + 1].idx, extended(more.0->Some_0, ls[k + 1].v));
            assert(ls2[k] == lf(ls[k].idx, v));
            assert(ls2[k + 1] == b);
            assert(pos(ls2, k + 1) == pos(ls2, k) + v.n());
            idx_only(ls2, k + 1);
            assert(ls2.subrange(k + 2, ls2.len() as int) =~= ls.subrange(k + 2, ls.len() as int));
        }
    } else {
        pos_same(ls2, ls, k);
        assert(ls2 =~= ls.update(k, lf(ls[k].idx, v)));
        assert(pos(ls2, k + 1) == pos(ls2, k) + ls2[k].v.n());
        if k + 1 < ls.len() {
            assert(ls2[k + 1] == ls[k + 1]);
            idx_only(ls2, k + 1);
            assert(ls2.subrange(k + 2, ls2.len() as int) =~= ls.subrange(k + 2, ls.len() as int));
        }
    }
}
/// What's visible up to the two ends of what's deleted.
pub proof fn ends_are(ls: Ls, k1: int, o1: int, k2: int, o2: int, from: int, to: int)
    requires
        leaves_ok(ls), 0 <= k1 <= k2 < ls.len(), !ls[k1].v.is_deleted, !ls[k2].v.is_deleted,
        0 <= o1 < ls[k1].v.n(), 0 < o2 <= ls[k2].v.n(),
        from == vsum(ls, k1) + o1, to == vsum(ls, k2) + o2, from < to,
    ensures
        after_vis(cat(ls), from + 1) - 1 == pos(ls, k1) + o1,
        after_vis(cat(ls), to) == pos(ls, k2) + o2,
        0 <= pos(ls, k1) + o1 < pos(ls, k2) + o2 <= cat(ls).len(),
{
    leaf_vis(ls, k1, o1 + 1);
    leaf_vis(ls, k2, o2);
    pos_le(ls, k1, k2);
    if k1 < k2 { pos_le(ls, k1 + 1, k2); cat_leaf(ls, k1); }
}
/// Whose visible characters were deleted.
pub proof fn deleted_in(ls: Ls, s2: Seq<Ch>, k1: int, k2: int, p: int, q: int, id: u64) -> (k: int)
    requires
        leaves_ok(ls), 0 <= k1 <= k2 < ls.len(), pos(ls, k1) <= p, q <= pos(ls, k2 + 1), s2 == mark(cat(ls), p, q),
        deletes_of(cat(ls), s2, id),
    ensures k1 <= k <= k2, ls[k].v.text.inserted_by == id, !ls[k].v.is_deleted,
{
    let s = cat(ls);
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id && !s[i].del && s2[i].del;
    let k = leaf_of(ls, i);
    cat_leaf(ls, k);
    if k < k1 { pos_le(ls, k + 1, k1); }
    if k > k2 { pos_le(ls, k2 + 1, k); }
    k
}
pub proof fn delete_done(t: RunTree, t2: RunTree, p: int, q: int)
    requires
        t.wf(), t2.tree_ok(), empty_ok(t2.ls()), cat(t2.ls()) == mark(cat(t.ls()), p, q), same_size(t.run_indices, t2.run_indices),
    ensures t2.wf(), t2.chars() == mark(t.chars(), p, q), t2.nruns() == t.nruns(),
{
    t.unfold();
    reveal(RunTree::nruns);
    assert(t2.nruns() =~= t.nruns());
    twins_keep(cat(t.ls()), cat(t2.ls()), t.nruns(), 0);
    t2.fold();
}
