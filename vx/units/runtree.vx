// run_tree.rs: the document.
%use leaves.vx
%use clocks.vx
%use edits.vx
%raw
pub type RunGtree = Gtree<EditRun>;
%file run_tree.rs
%alias StdRange Range
%alias Anchor InnerAnchor
%alias BiasedAnchor Anchor
%alias Gtree RunGtree
%item struct RunTree -Clone -PartialEq
%raw
pub open spec fn is_run(o: Option<&EditRun>, v: EditRun) -> bool { o is Some && *o->Some_0 == v }
// the derived Clone
impl Clone for RunTree {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl RunTree {
    pub open spec fn ls(&self) -> Ls { self.gtree.leaves() }
    /// The characters of the document, in order.
    #[verifier::opaque]
    pub open spec fn chars(&self) -> Seq<Ch> { cat(self.gtree.leaves()) }
    /// How many runs each replica has made.
    #[verifier::opaque]
    pub open spec fn nruns(&self) -> spec_fn(u64) -> int { |id: u64| self.run_indices.of(id).len() as int }

    pub open spec fn tree_ok(&self) -> bool {
        &&& self.gtree.wf()
        &&& distinct(self.ls())
        &&& leaves_ok(self.ls())
        &&& tables_ok(self.ls(), self.run_indices)
        &&& cat(self.ls()).len() <= usize::MAX
    }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& self.tree_ok()
        &&& empty_ok(self.ls())
        &&& runs_ok(self.chars(), self.nruns())
    }
    pub broadcast proof fn facts(&self)
        requires #[trigger] self.wf(),
        ensures
            runs_ok(self.chars(), self.nruns()),
            self.chars().len() <= usize::MAX,
    {
        reveal(RunTree::wf);
        reveal(RunTree::chars);
    }
}
// `<`, `>`, ... of runs are what `partial_cmp` says.
pub fn vx_lt(a: &EditRun, b: &EditRun) -> (r: bool)
    ensures r == !(beats(b.lamport_ts, b.text.inserted_by, a.lamport_ts, a.text.inserted_by)
        || (b.lamport_ts == a.lamport_ts && b.text.inserted_by == a.text.inserted_by)),
{ matches!(a.partial_cmp(b), Some(Ordering::Less)) }
pub fn vx_gt(a: &EditRun, b: &EditRun) -> (r: bool)
    ensures r == beats(b.lamport_ts, b.text.inserted_by, a.lamport_ts, a.text.inserted_by),
{ matches!(a.partial_cmp(b), Some(Ordering::Greater)) }
pub fn vx_le(a: &EditRun, b: &EditRun) -> (r: bool)
    ensures r == !beats(b.lamport_ts, b.text.inserted_by, a.lamport_ts, a.text.inserted_by),
{ matches!(a.partial_cmp(b), Some(Ordering::Less) | Some(Ordering::Equal)) }
pub fn vx_ge(a: &EditRun, b: &EditRun) -> (r: bool)
    ensures r == (beats(b.lamport_ts, b.text.inserted_by, a.lamport_ts, a.text.inserted_by)
        || (b.lamport_ts == a.lamport_ts && b.text.inserted_by == a.text.inserted_by)),
{ matches!(a.partial_cmp(b), Some(Ordering::Greater) | Some(Ordering::Equal)) }
/// What's typed goes on where the replica's last run ends.
pub open spec fn goes_on(v: EditRun, o: int, text: Text, lc: LamportClock) -> bool {
    o == v.n() && v.text.range.end == text.range.start && v.text.inserted_by == text.inserted_by && v.lamport_ts == lc.0 - 1
}
/// The run goes on where the leaf ends.
pub open spec fn appendable(v: EditRun, run: EditRun) -> bool {
    v.text.range.end == run.text.range.start && v.kin(&run) && v.is_deleted == run.is_deleted
}
pub open spec fn extended(v: EditRun, run: EditRun) -> EditRun {
    EditRun { text: Text { inserted_by: v.text.inserted_by, range: Range { start: v.text.range.start, end: run.text.range.end } }, ..v }
}
impl Leaf for EditRun {
    open spec fn can_join(a: EditRun, b: EditRun) -> bool { a.wf() && b.wf() && appendable(a, b) }
    open spec fn joined(a: EditRun, b: EditRun) -> EditRun { extended(a, b) }
    proof fn joins(a: EditRun, b: EditRun) {}
    fn append(&mut self, o: EditRun) -> (r: Result<(), EditRun>) { EditRun::append(self, o) }
    fn prepend(&mut self, o: EditRun) -> (r: Result<(), EditRun>) { EditRun::prepend(self, o) }
    fn len(&self) -> (r: usize) { self.leaf_len() }
}
impl Delete for EditRun {
    open spec fn erased(a: EditRun) -> EditRun { EditRun { is_deleted: true, ..a } }
    proof fn erases(a: EditRun) {}
    fn delete(&mut self) { self.leaf_delete() }
}
/// What `delete_range` makes of a run.
pub open spec fn cut_out(v0: EditRun, start: int, end: int, v: EditRun, r: (Option<EditRun>, Option<EditRun>)) -> bool {
    let n = v0.n();
    &&& 0 == start && end == n ==> v.is_deleted && v.part(&v0, 0, n) && r.0 is None && r.1 is None
    &&& 0 == start && end < n ==> v.is_deleted && v.part(&v0, 0, end) && r.0 is Some && !r.0->Some_0.is_deleted && r.0->Some_0.part(&v0, end, n) && r.1 is None
    &&& 0 < start && end == n ==> !v.is_deleted && v.part(&v0, 0, start) && r.0 is Some && r.0->Some_0.is_deleted && r.0->Some_0.part(&v0, start, n) && r.1 is None
    &&& 0 < start && end < n ==> !v.is_deleted && v.part(&v0, 0, start) && r.0 is Some && r.0->Some_0.is_deleted && r.0->Some_0.part(&v0, start, end)
        && r.1 is Some && !r.1->Some_0.is_deleted && r.1->Some_0.part(&v0, end, n)
}
pub open spec fn with_table(ri: RunIndices, id: u64, v: ReplicaIndices) -> RunIndices {
    RunIndices { map: ReplicaIdMap::of(ri.map@.insert(id, v)) }
}
pub proof fn table_put(ri: RunIndices, id: u64, v: ReplicaIndices)
    ensures
        with_table(ri, id, v).of(id) == v.vec@,
        forall|i: u64| i != id ==> #[trigger] with_table(ri, id, v).of(i) == ri.of(i),
{
    broadcast use ReplicaIdMap::of_view, ReplicaIdMap::view_of;
    assert(ri.map@.dom().finite());
}
impl RunTree {
    /// `before_delete`, given every leaf from one to another.
    fn vx_before(&self, i1: LeafIdx<EditRun>, i2: LeafIdx<EditRun>, version_map: &mut VersionMap)
        requires
            self.gtree.wf(), has_idx(self.ls(), i1), has_idx(self.ls(), i2), at_idx(self.ls(), i1) <= at_idx(self.ls(), i2),
            old(version_map).wf(),
        ensures
            final(version_map).wf(),
            final(version_map).this_id == old(version_map).this_id,
            final(version_map).this_value == old(version_map).this_value,
            forall|id: u64| old(version_map).rest@.contains_key(id) ==> #[trigger] final(version_map).rest@.contains_key(id),
            forall|k: int| at_idx(self.ls(), i1) <= k <= at_idx(self.ls(), i2) && !(#[trigger] self.ls()[k]).v.is_deleted && self.ls()[k].v.text.inserted_by != old(version_map).this_id
                ==> final(version_map).rest@.contains_key(self.ls()[k].v.text.inserted_by),
    {
        let ghost ls = self.ls();
        let ghost k1 = at_idx(ls, i1);
        let ghost k2 = at_idx(ls, i2);
        let ghost vm0 = *version_map;
        proof { idx_is(ls, i1); idx_is(ls, i2); self.gtree.facts(); }
        let mut it = self.gtree.leaves_of(true, i1);
        let mut done = false;
        while !done
            invariant
                ls == self.ls(), it.wf(), it.leaves() == ls, self.gtree.wf(), k1 == at_idx(ls, i1), k2 == at_idx(ls, i2), has_idx(ls, i2), distinct(ls),
                k1 <= it.place() <= k2 + 1, k2 < ls.len(), k1 >= 0,
                done <==> it.place() == k2 + 1,
                version_map.wf(), version_map.this_id == vm0.this_id, version_map.this_value == vm0.this_value,
                forall|id: u64| vm0.rest@.contains_key(id) ==> #[trigger] version_map.rest@.contains_key(id),
                forall|k: int| k1 <= k < it.place() && !(#[trigger] ls[k]).v.is_deleted && ls[k].v.text.inserted_by != vm0.this_id
                    ==> version_map.rest@.contains_key(ls[k].v.text.inserted_by),
            decreases k2 + 1 - it.place(),
        {
            let ghost k = it.place();
            let (idx, run) = it.next().unwrap();
            Self::before_delete(run, version_map);
            proof { idx_only(ls, k); idx_is(ls, i2); }
            if idx.same(i2) { done = true; }
        }
    }
}
/// Some characters are deleted.
pub open spec fn erased(t: RunTree, t2: RunTree, from: int, to: int) -> bool {
    &&& t2.tree_ok()
    &&& empty_ok(t2.ls())
    &&& cat(t2.ls()) == mark(cat(t.ls()), from, to)
    &&& forall|id: u64| (#[trigger] t2.run_indices.of(id)).len() == t.run_indices.of(id).len()
}
/// What follows the leaf part of which was deleted.
pub open spec fn followed(ls: Ls, ls2: Ls, k: int, start: int, end: int, r: LeafIdx<EditRun>) -> bool {
    let v = ls[k].v;
    let j = at_idx(ls2, r);
    if end < v.n() {
        // the rest of it
        &&& has_idx(ls2, r)
        &&& r == ls[k].idx || fresh(ls, r)
        &&& ls2[j].v.part(&v, end, v.n()) && !ls2[j].v.is_deleted
        &&& pos(ls2, j) == pos(ls, k) + end
        &&& ls2.subrange(j + 1, ls2.len() as int) == ls.subrange(k + 1, ls.len() as int)
    } else {
        k + 1 < ls.len() ==> {
            &&& has_idx(ls2, r)
            &&& r == ls[k + 1].idx
            &&& ls2.subrange(j + 1, ls2.len() as int) == ls.subrange(k + 2, ls.len() as int)
            // it may have become longer
            &&& (ls2[j] == ls[k + 1] && pos(ls2, j) == pos(ls, k + 1))
                || (ls2[j].v.is_deleted && ls[k + 1].v.is_deleted && ls2[j].v.kin(&ls[k + 1].v) && ls2[j].v.text.range.end == ls[k + 1].v.text.range.end
                    && ls2[j].v.text.range.start == ls[k + 1].v.text.range.start - (end - start)
                    && pos(ls2, j) == pos(ls, k) + start)
        }
    }
}
/// A run that goes after what its replica inserted so far: as a new one, or as
/// more of the last one.
pub open spec fn can_add(t: RunTree, run: EditRun) -> bool {
    let v = t.run_indices.of(run.text.inserted_by);
    &&& t.tree_ok()
    &&& empty_ok(t.ls())
    &&& run.wf()
    &&& run.n() > 0
    &&& run.text.inserted_by != 0
    &&& run.text.range.start == sum(v)
    &&& cat(t.ls()).len() + run.n() <= usize::MAX
    &&& run.run_ts == v.len() || (run.run_ts + 1 == v.len() && total(v.last().0@) > 0)
    &&& run.run_ts < u64::MAX
    &&& forall|e: int| 0 <= e < t.ls().len() && (#[trigger] t.ls()[e]).v.n() == 0 ==> run.lamport_ts > 0
    &&& !run.is_deleted
}
pub open spec fn runs_grown(ri: RunIndices, ri2: RunIndices, run: EditRun) -> bool {
    forall|i: u64| (#[trigger] ri2.of(i)).len() == if i == run.text.inserted_by { run.run_ts + 1 } else { ri.of(i).len() as int }
}
/// The run's at `p` now.
pub open spec fn grown(t: RunTree, t2: RunTree, p: int, run: EditRun, r: int) -> bool {
    &&& t2.tree_ok()
    &&& empty_ok(t2.ls())
    &&& 0 <= p <= cat(t.ls()).len()
    &&& cat(t2.ls()) == splice(cat(t.ls()), p, run.chars())
    &&& r == vis(cat(t.ls()).subrange(0, p))
    &&& runs_grown(t.run_indices, t2.run_indices, run)
}
/// The tables after a part was added.
pub open spec fn tables_grown(ri: RunIndices, ri2: RunIndices, l: Lf<EditRun>) -> bool {
    let me = l.v.text.inserted_by;
    &&& forall|i: u64| i != me ==> #[trigger] ri2.of(i) == ri.of(i)
    &&& table_ok(ri2.of(me))
    &&& sum(ri2.of(me)) == sum(ri.of(me)) + l.v.n()
    &&& forall|w: Fr| #[trigger] has_part(ri2.of(me), w) <==> has_part(ri.of(me), w) || w == fr_of(l)
    &&& ri2.of(me).len() == l.v.run_ts + 1
}
%item enum merge_deletion/DeletionState
%raw
/// The ranges told so far, with the one that's still growing.
pub open spec fn telling(state: DeletionState, list: Seq<Range<usize>>, vo: usize) -> Seq<Range<usize>> {
    if let DeletionState::Deleting(from) = state { list.push(Range { start: from, end: vo }) } else { list }
}
/// A range grows, or the next one won't touch the last.
pub open spec fn state_ok(state: DeletionState, list: Seq<Range<usize>>, vo: usize, ls: Ls, k: int, end_idx: LeafIdx<EditRun>, d: Deletion) -> bool {
    if let DeletionState::Deleting(from) = state { true } else {
        list.len() > 0 ==> list.last().end < vo
            || (k < at_idx(ls, end_idx) && !ls[k].v.is_deleted && ls[k].v.text.range.start >= d.version_map.at(ls[k].v.text.inserted_by))
    }
}
%impl RunTree
%fn len
    requires self.wf(),
    ensures r == vis(self.chars()),
%at start
    proof { self.unfold(); }
%fn run
    requires self.gtree.wf(), has_idx(self.ls(), run_idx),
    ensures *r == self.ls()[at_idx(self.ls(), run_idx)].v,
%fn new
    requires first_run.wf(), !first_run.is_deleted, first_run.run_ts == 0, first_run.lamport_ts == 0,
        first_run.text.range.start == 0, first_run.text.inserted_by != 0,
    ensures
        r.wf(),
        r.chars() == first_run.chars(),
        forall|id: u64| (#[trigger] r.nruns()(id)) == (if id == first_run.text.inserted_by { 1int } else { 0 }),
%after let (gtree , idx) =
    proof { gtree.facts(); assert(gtree.leaves()[0].idx == idx); }
%at end
    proof {
        gtree.facts();
        let l = gtree.leaves()[0];
        cat_one(l);
        assert(cat(gtree.leaves()) == first_run.chars());
        count_all_block(first_run);
        let ls = gtree.leaves();
        let ri = run_indices;
        assert forall|i: u64, w: Fr| #![trigger has_part(ri.of(i), w)] #![trigger lf_has(ls, i, w)] has_part(ri.of(i), w) <==> lf_has(ls, i, w) by {
            if lf_has(ls, i, w) { let k = choose|k: int| #[trigger] lf_at(ls, i, w, k); assert(k == 0); }
            if i == id && w == fr_of(l) { assert(lf_at(ls, i, w, 0)); }
            if has_part(ri.of(i), w) && i != id { let j = choose|j: int| #[trigger] part_is(ri.of(i), w, j); assert(false); }
            if has_part(Seq::<(Fragments, usize)>::empty(), w) { let j = choose|j: int| #[trigger] part_is(Seq::<(Fragments, usize)>::empty(), w, j); assert(false); }
        }
        assert forall|i: u64| table_ok(#[trigger] ri.of(i)) by {}
        reveal(RunTree::nruns);
        let t = RunTree { gtree, run_indices };
        block_runs_ok(first_run, t.nruns());
        t.fold();
    }
%fn create_anchor
%forloops
%sub? leaves::<$b>($x) =>> leaves_of($b, $x)
    requires self.wf(), at_offset <= vis(self.chars()),
    ensures anchored(self.chars(), at_offset as int, with_bias, r),
%loop 0
    invariant_except_break
        vx_found is None,
        forall|j: int| 0 <= j < vx_it.place() ==> (#[trigger] self.ls()[j]).v.is_deleted,
    invariant
        self.wf(),
        vx_it.wf(), vx_it.leaves() == self.ls(),
        0 <= vx_it.place() <= self.ls().len(),
    ensures
        vx_found is None ==> vx_it.place() >= self.ls().len(),
        vx_found is None ==> forall|j: int| 0 <= j < vx_it.place() ==> (#[trigger] self.ls()[j]).v.is_deleted,
        vx_found is Some ==> 0 < vx_it.place() && is_run(vx_found, self.ls()[vx_it.place() - 1].v)
            && !self.ls()[vx_it.place() - 1].v.is_deleted
            && forall|j: int| 0 <= j < vx_it.place() - 1 ==> (#[trigger] self.ls()[j]).v.is_deleted,
    decreases self.ls().len() - vx_it.place(),
%loop 1
    invariant_except_break
        vx_found is None,
        forall|j: int| vx_first <= j < vx_it.place() ==> (#[trigger] self.ls()[j]).v.is_deleted,
    invariant
        self.wf(),
        vx_it.wf(), vx_it.leaves() == self.ls(),
        0 <= vx_first <= vx_it.place() <= self.ls().len(),
    ensures
        vx_found is None ==> vx_it.place() >= self.ls().len(),
        vx_found is None ==> forall|j: int| vx_first <= j < vx_it.place() ==> (#[trigger] self.ls()[j]).v.is_deleted,
        vx_found is Some ==> vx_first < vx_it.place() && is_run(vx_found, self.ls()[vx_it.place() - 1].v)
            && !self.ls()[vx_it.place() - 1].v.is_deleted
            && forall|j: int| vx_first <= j < vx_it.place() - 1 ==> (#[trigger] self.ls()[j]).v.is_deleted,
    decreases self.ls().len() - vx_it.place(),
%at start
    let ghost s = self.chars();
    let ghost ls = self.ls();
    proof {
        self.unfold();
        if at_offset < vis(s) && at_offset == 0 { some_visible(ls, 0); }
    }
%before let anchor = InnerAnchor :: new ( first_run
    let ghost k = choose|k: int| 0 <= k < ls.len() && *first_run == (#[trigger] ls[k]).v && !ls[k].v.is_deleted && forall|j: int| 0 <= j < k ==> (#[trigger] ls[j]).v.is_deleted;
    proof {
        first_visible(ls, 0, k);
        leaf_vis(ls, k, 1);
        cat_leaf(ls, k);
    }
%before let next_run =
    let ghost vx_first = at_idx(ls, leaf_idx) + 1;
    proof { some_visible(ls, vx_first); }
%after let next_run =
    let ghost k = choose|k: int| vx_first <= k < ls.len() && *next_run == (#[trigger] ls[k]).v && !ls[k].v.is_deleted && forall|j: int| vx_first <= j < k ==> (#[trigger] ls[j]).v.is_deleted;
    proof {
        first_visible(ls, vx_first, k);
        leaf_vis(ls, k, 1);
        cat_leaf(ls, k);
    }
%after let mut edit_run =
    let ghost k0 = at_idx(ls, leaf_idx);
    proof {
        idx_is(ls, leaf_idx);
        cat_leaf(ls, k0);
        vsum_le(ls, k0 + 1, ls.len() as int);
        assert(vsum(ls, k0 + 1) == vsum(ls, k0) + ls[k0].v.vlen());
        self.gtree.facts();
        leaf_vis(ls, k0, at_offset - leaf_offset);
        if at_offset < leaf_offset + edit_run.text.range.end - edit_run.text.range.start { leaf_vis(ls, k0, at_offset + 1 - leaf_offset); }
    }
%fn resolve_anchor
    requires self.wf(), anchor_ok(self.chars(), anchor),
    ensures r == resolved(self.chars(), anchor),
%at start
    let ghost s = self.chars();
    let ghost ls = self.ls();
    let ghost id = anchor.inner.replica_id;
    let ghost o = if anchor.bias == AnchorBias::Left { anchor.inner.offset - 1 } else { anchor.inner.offset as int };
    proof {
        self.unfold();
        if id != 0 { let k = char_known(ls, self.run_indices, id, o); }
    }
%after let anchor_idx =
    proof {
        let w = choose|w: Fr| #[trigger] has_part(self.run_indices.of(id), w) && w.idx == anchor_idx && w.start <= o < w.start + w.len;
        assert(lf_has(ls, id, w));
        let k = choose|k: int| #[trigger] lf_at(ls, id, w, k);
        idx_only(ls, k);
        char_leaf(ls, id, o, k);
        cat_leaf(ls, k);
        leaf_vis(ls, k, o - ls[k].v.text.range.start);
        leaf_vis(ls, k, o + 1 - ls[k].v.text.range.start);
        vsum_le(ls, k + 1, ls.len() as int);
        assert(vsum(ls, k + 1) == vsum(ls, k) + ls[k].v.vlen());
        self.gtree.facts();
    }
%fn append_run_to_another
    requires
        old(self).tree_ok(), empty_ok(old(self).ls()), has_idx(old(self).ls(), append_to), run.wf(), run.n() > 0, !run.is_deleted,
        appendable(old(self).ls()[at_idx(old(self).ls(), append_to)].v, run),
        old(self).ls()[at_idx(old(self).ls(), append_to)].v.n() > 0,
        run.text.range.start == sum(old(self).run_indices.of(run.text.inserted_by)),
        cat(old(self).ls()).len() + run.n() <= usize::MAX,
        run.run_ts + 1 == old(self).run_indices.of(run.text.inserted_by).len(),
    ensures grown(*old(self), *final(self), pos(old(self).ls(), at_idx(old(self).ls(), append_to) + 1), run, r as int),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost k = at_idx(ls, append_to);
    let ghost id = run.text.inserted_by;
    let ghost x = fr_of(ls[k]);
    let ghost l = lf(append_to, extended(ls[k].v, run));
    proof {
        idx_is(ls, append_to);
        cat_leaf(ls, k);
        leaf_part(ls, self.run_indices, k);
        vsum_le(ls, k + 1, ls.len() as int);
        assert(vsum(ls, k + 1) == vsum(ls, k) + ls[k].v.vlen());
        cat_cut(ls, k + 1);
        vis_le(cat(ls));
        cat_extend(ls, k, run, append_to);
        assert(table_ok(self.run_indices.of(id)));
        count_le(cat(ls), id);
        assert(sum(self.run_indices.of(id)) == count(cat(ls), id));
    }
%at end
    proof {
        assert(fr_of(l) == Fr { len: x.len + run.n(), ..x });
        leaf_extended(t, *self, k, run);
    }
%fn insert_run_after_another
    requires
        can_add(*old(self), run), has_idx(old(self).ls(), insert_after),
        old(self).ls()[at_idx(old(self).ls(), insert_after)].v.n() > 0,
    ensures grown(*old(self), *final(self), pos(old(self).ls(), at_idx(old(self).ls(), insert_after) + 1), run, r as int),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost k = at_idx(ls, insert_after);
    proof {
        idx_is(ls, insert_after);
        cat_cut(ls, k);
        vis_le(cat(ls));
        count_le(cat(ls), run.text.inserted_by);
        assert(sum(self.run_indices.of(run.text.inserted_by)) == count(cat(ls), run.text.inserted_by));
        assert(table_ok(self.run_indices.of(run.text.inserted_by)));
    }
%after let (offset , idx) =
    proof { self.gtree.facts(); assert(self.gtree.leaves()[k + 1].idx == idx); }
%at end
    proof { leaf_added(t, *self, k + 1, lf(idx, run)); }
%fn insert_run_at_zero
%forloops
%sub? run < *$x =>> vx_lt(&run, $x)
%sub? run > *$x =>> vx_gt(&run, $x)
%sub? run <= *$x =>> vx_le(&run, $x)
%sub? run >= *$x =>> vx_ge(&run, $x)
    requires
        can_add(*old(self), run), run.lamport_ts > 0, run.run_ts == old(self).run_indices.of(run.text.inserted_by).len(),
        forall|j: int| 0 <= j < old(self).ls().len() && (#[trigger] old(self).ls()[j]).v.text.inserted_by == run.text.inserted_by
            ==> old(self).ls()[j].v.lamport_ts < run.lamport_ts,
    ensures grown(*old(self), *final(self), scan(cat(old(self).ls()), 0, run.lamport_ts, run.text.inserted_by), run, r as int),
%loop 0
    invariant_except_break
        forall|j: int| 0 <= j < vx_it.place() ==> beats((#[trigger] ls[j]).v.lamport_ts, ls[j].v.text.inserted_by, run.lamport_ts, run.text.inserted_by),
    invariant
        *self == t, t == *old(self),
        ls == t.ls(),
        can_add(t, run), run.lamport_ts > 0,
        distinct(ls),
        vx_it.wf(), vx_it.leaves() == ls,
        1 <= vx_it.place() <= ls.len(),
        prev_idx == ls[vx_it.place() - 1].idx,
    ensures
        scanned(ls, 0, ls.len() as int, run.lamport_ts, run.text.inserted_by),
        vx_it.place() == ls.len(),
    decreases ls.len() - vx_it.place(),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    proof {
        self.gtree.facts();
        cat_cut(ls, 0);
        count_le(cat(ls), run.text.inserted_by);
        vis_le(cat(ls));
        assert(sum(self.run_indices.of(run.text.inserted_by)) == count(cat(ls), run.text.inserted_by));
        assert(table_ok(self.run_indices.of(run.text.inserted_by)));
    }
%before self . run_indices . get_mut
    proof { self.gtree.facts(); assert(self.gtree.leaves()[0].idx == idx); }
%before return 0
    proof {
        leaf_added(t, *self, 0, lf(idx, run));
        scan_leaves(ls, 0, 0, run.lamport_ts, run.text.inserted_by);
        cat_cut(ls, 0);
    }
%before return self . insert_run_after_another
    proof {
        let k = vx_it.place() - 2;
        idx_only(ls, k);
        assert(ls[k].v.n() > 0);
        scan_leaves(ls, 0, k + 1, run.lamport_ts, run.text.inserted_by);
    }
%before self . insert_run_after_another
    proof {
        let k = ls.len() - 1;
        idx_only(ls, k);
        assert(ls[k].v.n() > 0);
        scan_leaves(ls, 0, k + 1, run.lamport_ts, run.text.inserted_by);
    }
%fn split_run_with_another
%sub self.gtree.split_leaf_with_another($i, |$p| $b) =>> { let vx_i = $i; let mut vx_leaf = self.gtree.vx_take(vx_i); let vx_new = { let $p = &mut vx_leaf; $b }; self.gtree.vx_put_two(vx_i, vx_leaf, vx_new) }
    requires
        can_add(*old(self), run), has_idx(old(self).ls(), insert_into), run.run_ts == old(self).run_indices.of(run.text.inserted_by).len(),
        0 < at_offset < old(self).ls()[at_idx(old(self).ls(), insert_into)].v.n(),
    ensures grown(*old(self), *final(self), pos(old(self).ls(), at_idx(old(self).ls(), insert_into)) + at_offset, run, r as int),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost k = at_idx(ls, insert_into);
    proof {
        idx_is(ls, insert_into);
        cat_cut(ls, k);
        vis_le(cat(ls));
        count_le(cat(ls), run.text.inserted_by);
        assert(sum(self.run_indices.of(run.text.inserted_by)) == count(cat(ls), run.text.inserted_by));
        assert(table_ok(self.run_indices.of(run.text.inserted_by)));
        cat_leaf(ls, k);
        assert(table_ok(self.run_indices.of(ls[k].v.text.inserted_by)));
        leaf_part(ls, self.run_indices, k);
    }
%after let (offset , inserted_idx , split_idx) =
    proof {
        self.gtree.facts();
        assert(self.gtree.leaves()[k + 1].idx == inserted_idx);
        assert(self.gtree.leaves()[k + 2].idx == split_idx);
    }
%after self . run_indices . get_mut (inserted_id)
    let ghost ri1 = self.run_indices;
    let ghost l = lf(inserted_idx, run);
    proof {
        tables_insert(ls, t.run_indices, ri1, k + 1, l);
        assert(ls.insert(k + 1, l)[k] == ls[k]);
        leaf_part(ls.insert(k + 1, l), ri1, k);
    }
%at end
    proof {
        let a = self.ls()[k];
        let b = self.ls()[k + 2];
        leaf_split(t, *self, ri1, k, at_offset as int, l, a, b);
    }
%fn merge_insertion
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%forloops
%sub? leaves::<$b>($x) =>> leaves_of($b, $x)
%sub? siblings::<$b>($x) =>> siblings_of($b, $x)
%sub? run < *$x =>> vx_lt(&run, $x)
%sub? run > *$x =>> vx_gt(&run, $x)
%sub? run <= *$x =>> vx_le(&run, $x)
%sub? run >= *$x =>> vx_ge(&run, $x)
    requires
        old(self).wf(),
        ins_ok(old(self).chars(), old(self).nruns()(insertion.text.inserted_by), *insertion),
    ensures
        final(self).wf(),
        final(self).chars() == merge_ins(old(self).chars(), *insertion),
        r == vis(old(self).chars().subrange(0, ins_place(old(self).chars(), *insertion))),
        forall|id: u64| (#[trigger] final(self).nruns()(id)) ==
            (if id == insertion.text.inserted_by { insertion.run_ts + 1 } else { old(self).nruns()(id) }),
%loop 0
    invariant_except_break
        forall|j: int| k + 1 <= j < vx_it.place() ==> beats((#[trigger] ls[j]).v.lamport_ts, ls[j].v.text.inserted_by, run.lamport_ts, run.text.inserted_by),
    invariant
        *self == t,
        vx_it.wf(), vx_it.leaves() == ls,
        k + 2 <= vx_it.place() <= vx_it.upto() <= ls.len(),
        prev_idx == ls[vx_it.place() - 1].idx,
    ensures
        k + 2 <= vx_it.place() <= ls.len(),
        prev_idx == ls[vx_it.place() - 1].idx,
        forall|j: int| k + 1 <= j < vx_it.place() ==> beats((#[trigger] ls[j]).v.lamport_ts, ls[j].v.text.inserted_by, run.lamport_ts, run.text.inserted_by),
    decreases ls.len() - vx_it.place(),
%loop 1
    invariant_except_break
        forall|j: int| k + 1 <= j < vx_it.place() ==> beats((#[trigger] ls[j]).v.lamport_ts, ls[j].v.text.inserted_by, run.lamport_ts, run.text.inserted_by),
    invariant
        *self == t,
        vx_it.wf(), vx_it.leaves() == ls,
        k + 1 <= vx_it.place() <= ls.len(),
        prev_idx == ls[vx_it.place() - 1].idx,
    ensures
        vx_it.place() == ls.len(),
        prev_idx == ls[vx_it.place() - 1].idx,
        forall|j: int| k + 1 <= j < vx_it.place() ==> beats((#[trigger] ls[j]).v.lamport_ts, ls[j].v.text.inserted_by, run.lamport_ts, run.text.inserted_by),
    decreases ls.len() - vx_it.place(),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost s = self.chars();
    let ghost id = insertion.text.inserted_by;
    let ghost a = insertion.anchor;
    proof {
        self.unfold();
        self.gtree.facts();
        place_is(s, self.nruns()(id), *insertion);
        if a.replica_id != 0 { let k = char_known(ls, self.run_indices, a.replica_id, a.offset - 1); }
    }
%after let run =
    proof {
        ins_can_add(t, *insertion, run);
        assert(t.run_indices.of(id).len() == t.nruns()(id));
        if a.replica_id == 0 {
            assert forall|j: int| 0 <= j < ls.len() && (#[trigger] ls[j]).v.text.inserted_by == id implies ls[j].v.lamport_ts < run.lamport_ts by {
                if ls[j].v.n() > 0 { cat_leaf(ls, j); assert(s[pos(ls, j)].id == id); }
            }
        }
    }
%after let anchor_idx =
    let ghost k = at_idx(ls, anchor_idx);
    proof {
        let w = choose|w: Fr| #[trigger] has_part(self.run_indices.of(a.replica_id), w) && w.idx == anchor_idx && w.run == a.contained_in && w.start < a.offset <= w.start + w.len;
        assert(lf_has(ls, a.replica_id, w));
        let kk = choose|k: int| #[trigger] lf_at(ls, a.replica_id, w, k);
        idx_only(ls, kk);
        char_leaf(ls, a.replica_id, a.offset - 1, k);
        cat_leaf(ls, k);
        assert(anchor_place(s, a) == pos(ls, k) + a.offset - ls[k].v.text.range.start);
        if a.offset < ls[k].v.text.range.end {
            let p = anchor_place(s, a);
            assert(s[p].id == a.replica_id && s[p].off == a.offset);
            at_only(s, p);
            scan_only(s, p, insertion.lamport_ts, id, p);
        }
    }
%before return self . insert_run_after_another (run , prev_idx)
    proof {
        let j = vx_it.place() - 2;
        idx_only(ls, j);
        assert(ls[j].v.n() > 0);
        scan_leaves(ls, k + 1, j + 1, run.lamport_ts, run.text.inserted_by);
    }
%before return self . append_run_to_another
    proof { scan_leaves(ls, k + 1, k + 1, run.lamport_ts, run.text.inserted_by); }
%before return self . insert_run_after_another (run , anchor_idx)
    proof { scan_leaves(ls, k + 1, k + 1, run.lamport_ts, run.text.inserted_by); }
%before 1 return self . insert_run_after_another (run , prev_idx)
    proof {
        let j = vx_it.place() - 2;
        idx_only(ls, j);
        assert(ls[j].v.n() > 0);
        scan_leaves(ls, k + 1, j + 1, run.lamport_ts, run.text.inserted_by);
    }
%before self . insert_run_after_another
    proof {
        let j = ls.len() - 1;
        idx_only(ls, j);
        assert(ls[j].v.n() > 0);
        scan_leaves(ls, k + 1, j + 1, run.lamport_ts, run.text.inserted_by);
    }
%at exits
    proof { grown_is_merge(t, *self, *insertion, run, vx_tail as int); }
%fn insert/insert_with
%sig fn insert_with(run: &mut EditRun, offset: usize, text: Text, run_clock: &mut RunClock, lamport_clock: &mut LamportClock, split_id: &mut u64, split_insertion: &mut u64, split_at_offset: &mut usize, anchor: &mut Anchor) -> (Option<EditRun>, Option<EditRun>)
%deref split_id split_insertion split_at_offset anchor
    requires
        old(run).wf(), 0 < offset <= old(run).n(),
        text.range.start < text.range.end,
        old(run_clock).0 < u64::MAX, 1 <= old(lamport_clock).0 < u64::MAX,
    ensures
        *final(split_id) == old(run).text.inserted_by,
        *final(split_insertion) == old(run).run_ts,
        *final(split_at_offset) == old(run).text.range.start + offset,
        final(anchor).replica_id == old(run).text.inserted_by,
        final(anchor).offset == old(run).text.range.start + offset,
        final(anchor).contained_in == old(run).run_ts,
        goes_on(*old(run), offset as int, text, *old(lamport_clock)) ==> {
            &&& final(run).kin(&old(run)) && final(run).is_deleted == old(run).is_deleted
            &&& final(run).text.range.start == old(run).text.range.start
            &&& final(run).text.range.end == text.range.end
            &&& r.0 is None && r.1 is None
            &&& *final(run_clock) == *old(run_clock) && *final(lamport_clock) == *old(lamport_clock)
        },
        !goes_on(*old(run), offset as int, text, *old(lamport_clock)) ==> {
            &&& final(run).part(&old(run), 0, offset as int) && final(run).is_deleted == old(run).is_deleted
            &&& r.0 == Some(EditRun { text, run_ts: old(run_clock).0, lamport_ts: old(lamport_clock).0, is_deleted: false })
            &&& offset == old(run).n() ==> r.1 is None
            &&& offset < old(run).n() ==> r.1 is Some && r.1->Some_0.part(&old(run), offset as int, old(run).n()) && r.1->Some_0.is_deleted == old(run).is_deleted
            &&& final(run_clock).0 == old(run_clock).0 + 1 && final(lamport_clock).0 == old(lamport_clock).0 + 1
        },
%fn insert
%drop insert_with
%sub let ($p) = self.gtree.insert($o, insert_with); =>> let vx_o = $o; let vx_at = self.gtree.leaf_at_offset(vx_o); let mut vx_leaf = self.gtree.vx_take(vx_at.0); let vx_new = Self::insert_with(&mut vx_leaf, vx_o - vx_at.1, text, run_clock, lamport_clock, &mut split_id, &mut split_insertion, &mut split_at_offset, &mut anchor); let ($p) = self.gtree.vx_put_insert(vx_o, vx_at.0, vx_leaf, vx_new);
%sub? text.range.is_empty() =>> !(text.range.start < text.range.end)
    requires
        old(self).wf(),
        ages_ok(old(self).chars()),
        offset <= vis(old(self).chars()),
        text.inserted_by != 0,
        text.range.start < text.range.end,
        text.range.start == count(old(self).chars(), text.inserted_by),
        old(self).chars().len() + (text.range.end - text.range.start) <= usize::MAX,
        old(run_clock).0 == old(self).nruns()(text.inserted_by),
        old(run_clock).0 < u64::MAX,
        1 <= old(lamport_clock).0 < u64::MAX,
        young(old(self).chars(), old(lamport_clock).0),
    ensures
        final(self).wf(),
        local_insert(old(self).chars(), old(self).nruns(), offset as int, text, *old(run_clock), *old(lamport_clock),
            final(self).chars(), final(self).nruns(), *final(run_clock), *final(lamport_clock), r),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost s = self.chars();
    let ghost id = text.inserted_by;
    let ghost rc = *run_clock;
    let ghost lc = *lamport_clock;
    let ghost run = EditRun { text, run_ts: rc.0, lamport_ts: lc.0, is_deleted: false };
    let ghost p = after_vis(s, offset as int);
    proof {
        self.unfold();
        self.gtree.facts();
        assert(t.run_indices.of(id).len() == t.nruns()(id));
        assert(sum(t.run_indices.of(id)) == count(cat(ls), id));
        assert(table_ok(t.run_indices.of(id)));
        assert(can_add(t, run));
        count_le(s, id);
        after_vis_is(s, offset as int);
    }
%after let inserted_idx = self . gtree . prepend
    proof { self.gtree.facts(); assert(self.gtree.leaves()[0].idx == inserted_idx); }
%before return InnerAnchor :: zero
    proof {
        leaf_added(t, *self, 0, lf(inserted_idx, run));
    }
%after let vx_at =
    let ghost k = at_idx(ls, vx_at.0);
    let ghost o = offset - vx_at.1;
    let ghost goes = goes_on(ls[k].v, o, run.text, lc);
    proof {
        idx_is(ls, vx_at.0);
        cat_leaf(ls, k);
        assert(vsum(ls, k + 1) == vsum(ls, k) + ls[k].v.vlen());
        leaf_vis(ls, k, o);
        leaf_part(ls, t.run_indices, k);
        assert(s[p - 1].id == ls[k].v.text.inserted_by && s[p - 1].off == ls[k].v.text.range.start + o - 1);
        if s[p - 1].id == id && s[p - 1].off + 1 == run.text.range.start && o < ls[k].v.n() {
            assert(s[p].id == id && s[p].off == count(s, id));
        }
        vsum_le(ls, k + 1, ls.len() as int);
        vis_le(s);
    }
%before if let Some (inserted_idx) = inserted_idx
    let ghost mid = self.gtree.leaves();
    proof {
        self.gtree.facts();
        if !goes {
            assert(mid[k + 1].idx == inserted_idx->Some_0);
            if o < ls[k].v.n() { assert(mid[k + 2].idx == split_idx->Some_0); }
        } else {
            assert(s[p - 1].off == count(s, id) - 1);
            assert(vx_leaf == extended(ls[k].v, run));
        }
    }
%before if let Some (split_idx) = split_idx
    let ghost ri1 = self.run_indices;
    let ghost l = lf(inserted_idx, run);
    proof {
        tables_insert(ls, t.run_indices, ri1, k + 1, l);
        assert(ls.insert(k + 1, l)[k] == ls[k]);
        leaf_part(ls.insert(k + 1, l), ri1, k);
    }
%after if let Some (split_idx) = split_idx
    proof {
        if o < ls[k].v.n() {
            leaf_split(t, *self, ri1, k, o, l, mid[k], mid[k + 2]);
        } else {
            assert(vx_leaf == ls[k].v);
            assert(ls.update(k, ls[k]) =~= ls);
            leaf_added(t, *self, k + 1, l);
        }
    }
%after self . run_indices . get_mut (replica_id) . extend_last
    proof {
        leaf_extended(t, *self, k, EditRun { run_ts: ls[k].v.run_ts, lamport_ts: ls[k].v.lamport_ts, ..run });
    }
%at exits
    proof {
        let goes = *lamport_clock == lc;
        let run2 = EditRun { text: run.text, run_ts: (run_clock.0 - 1) as u64, lamport_ts: (lamport_clock.0 - 1) as u64, is_deleted: false };
        assert(exists|r: int| grown(t, *self, p, run2, r));
        assert forall|i: u64| #[trigger] self.nruns()(i) == (if i == id { run2.run_ts + 1 } else { t.nruns()(i) }) by {
            reveal(RunTree::nruns);
            assert(self.run_indices.of(i).len() == if i == id { run2.run_ts + 1 } else { t.run_indices.of(i).len() as int });
        }
        let ins = Insertion { anchor: vx_tail, text: run.text, run_ts: run2.run_ts, lamport_ts: run2.lamport_ts };
        local_is_merge(s, t.nruns(), offset as int, rc, lc, cat(self.ls()), self.nruns(), *run_clock, *lamport_clock, ins);
        self.fold();
    }
%fn delete/before_delete
%sig fn before_delete(run: &EditRun, version_map: &mut VersionMap)
    ensures
        old(version_map).wf() ==> final(version_map).wf(),
        final(version_map).this_id == old(version_map).this_id,
        final(version_map).this_value == old(version_map).this_value,
        forall|id: u64| #[trigger] final(version_map).rest@.contains_key(id) <==> old(version_map).rest@.contains_key(id)
            || (id == run.text.inserted_by && id != old(version_map).this_id && !run.is_deleted),
%fn delete/delete_from
%sig fn delete_from(run: &mut EditRun, offset: usize, split_across_runs: &mut bool, id_start: &mut u64, run_ts_start: &mut u64, offset_start: &mut usize) -> Option<EditRun>
%deref split_across_runs id_start run_ts_start offset_start
    requires
        old(run).wf(), !old(run).is_deleted, offset < old(run).n(),
    ensures
        *final(split_across_runs),
        *final(id_start) == old(run).text.inserted_by,
        *final(run_ts_start) == old(run).run_ts,
        *final(offset_start) == old(run).text.range.start + offset,
        offset == 0 ==> final(run).is_deleted && final(run).part(&old(run), 0, old(run).n()) && r is None,
        0 < offset ==> {
            &&& !final(run).is_deleted
            &&& final(run).part(&old(run), 0, offset as int)
            &&& r is Some && r->Some_0.is_deleted && r->Some_0.part(&old(run), offset as int, old(run).n())
        },
%fn delete/delete_up_to
%sig fn delete_up_to(run: &mut EditRun, offset: usize, id_end: &mut u64, run_ts_end: &mut u64, offset_end: &mut usize) -> Option<EditRun>
%deref id_end run_ts_end offset_end
    requires
        old(run).wf(), !old(run).is_deleted, 0 < offset <= old(run).n(),
    ensures
        *final(id_end) == old(run).text.inserted_by,
        *final(run_ts_end) == old(run).run_ts,
        *final(offset_end) == old(run).text.range.start + offset,
        final(run).is_deleted,
        final(run).part(&old(run), 0, offset as int),
        offset < old(run).n() ==> r is Some && !r->Some_0.is_deleted && r->Some_0.part(&old(run), offset as int, old(run).n()),
        offset == old(run).n() ==> r is None,
%fn delete/delete_range
%sig fn delete_range(run: &mut EditRun, range: URange<usize>, id_range: &mut u64, run_ts_range: &mut u64, deleted_range_offset: &mut usize, deleted_range_run_len: &mut usize, deleted_range: &mut URange<usize>) -> (Option<EditRun>, Option<EditRun>)
%deref id_range run_ts_range deleted_range_offset deleted_range_run_len deleted_range
    requires
        old(run).wf(), !old(run).is_deleted, range.start < range.end <= old(run).n(),
    ensures
        *final(id_range) == old(run).text.inserted_by,
        *final(run_ts_range) == old(run).run_ts,
        *final(deleted_range_offset) == old(run).text.range.start,
        *final(deleted_range_run_len) == old(run).n(),
        *final(deleted_range) == range,
        cut_out(*old(run), range.start as int, range.end as int, *final(run), r),
%fn delete
%attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
%drop before_delete delete_from delete_up_to delete_range
%sub let ($q) = self.gtree.delete($r, before_delete, delete_range, delete_from, delete_up_to,); =>> let vx_range = $r; let vx_at = self.gtree.vx_delete_at(vx_range); let mut vx_leaf = self.gtree.vx_take(vx_at.i1); let mut vx_leaf2 = self.gtree.vx_take(vx_at.i2); let mut vx_new: (Option<EditRun>, Option<EditRun>) = (None, None); let mut vx_end: Option<EditRun> = None; let ($q) = if vx_at.within { Self::before_delete(&vx_leaf, version_map); vx_new = Self::delete_range(&mut vx_leaf, URange { start: vx_at.o1, end: vx_at.o2 }, &mut id_range, &mut run_ts_range, &mut deleted_range_offset, &mut deleted_range_run_len, &mut deleted_range); self.gtree.vx_put_within(vx_range, &vx_at, vx_leaf, vx_new) } else { self.vx_before(vx_at.i1, vx_at.i2, version_map); vx_new.0 = Self::delete_from(&mut vx_leaf, vx_at.o1, &mut split_across_runs, &mut id_start, &mut run_ts_start, &mut offset_start); vx_end = Self::delete_up_to(&mut vx_leaf2, vx_at.o2, &mut id_end, &mut run_ts_end, &mut offset_end); self.gtree.vx_put_across(vx_range, &vx_at, vx_leaf, vx_new.0, vx_leaf2, vx_end) };
%sub? deleted_range + deleted_range_offset =>> deleted_range.add(deleted_range_offset)
    requires
        old(self).wf(),
        range.start < range.end <= vis(old(self).chars()),
        old(version_map).wf(),
    ensures
        final(self).wf(),
        final(self).nruns() == old(self).nruns(),
        local_delete(old(self).chars(), range.start as int, range.end as int, final(self).chars(), r),
        final(version_map).wf(),
        final(version_map).this_id == old(version_map).this_id,
        final(version_map).this_value == old(version_map).this_value,
        forall|id: u64| id != old(version_map).this_id && deletes_of(old(self).chars(), final(self).chars(), id)
            ==> #[trigger] final(version_map).rest@.contains_key(id),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost ri = self.run_indices;
    let ghost r0 = range;
    proof { self.unfold(); }
%after let vx_at =
    let ghost k1 = at_idx(ls, vx_at.i1);
    let ghost k2 = at_idx(ls, vx_at.i2);
    let ghost o1 = vx_at.o1 as int;
    let ghost o2 = vx_at.o2 as int;
    let ghost p = pos(ls, k1) + o1;
    let ghost q = pos(ls, k2) + o2;
    proof {
        idx_is(ls, vx_at.i1);
        idx_is(ls, vx_at.i2);
        cat_leaf(ls, k1);
        cat_leaf(ls, k2);
        leaf_part(ls, ri, k1);
        leaf_part(ls, ri, k2);
        assert(ls[k1].v.wf() && ls[k2].v.wf());
        assert(table_ok(ri.of(ls[k1].v.text.inserted_by)));
        ends_are(ls, k1, o1, k2, o2, r0.start as int, r0.end as int);
    }
%after let (first_idx , second_idx) =
    let ghost x = (first_idx, second_idx);
    let ghost ls1 = self.ls();
    let ghost ur = URange { start: vx_at.o1, end: vx_at.o2 };
    proof {
        self.gtree.facts();
        if vx_at.within {
            erase_leaf_before(ls, ls1, ri, k1, ur, vx_leaf, vx_new, x);
        } else {
            assert(ls1 =~= across(ls, k1, o1, x.0, k2, o2, x.1));
            if x.0 is Some { assert(ls1[k1 + 1].idx == x.0->Some_0); }
            if x.1 is Some { assert(ls1[k2 + 1 + by1(x.0)].idx == x.1->Some_0); }
        }
    }
%before if let Some (idx) = second_idx
    let ghost rm = self.run_indices;
    proof {
        assert(cut_tables(ls, ri, rm, k1, o1, x.0));
        cut_doc(ls, ri, rm, k1, o1, x.0, k2);
        let m1 = cut(ls, k1, o1, x.0);
        assert(m1[k2 + by1(x.0)] == ls[k2]);
        leaf_part(m1, rm, k2 + by1(x.0));
        assert(table_ok(rm.of(ls[k2].v.text.inserted_by)));
    }
%before return (InnerAnchor
    proof {
        let m1 = cut(ls, k1, o1, x.0);
        assert(m1[k2 + by1(x.0)] == ls[k2]);
        assert(cut_tables(m1, rm, self.run_indices, k2 + by1(x.0), o2, x.1));
        erase_across(ls, ri, rm, self.run_indices, k1, o1, x.0, k2, o2, x.1);
    }
%before indices . split (run_ts_range , range . end
    let ghost rm = with_table(ri, id_range, *indices);
    proof { table_put(ri, id_range, *indices); }
%after indices . split (run_ts_range , range . end
    proof {
        let w = fr_of(ls[k1]);
        let y = Fr { len: o1, ..w };
        let z = Fr { start: w.start + o1, len: w.len - o1, idx: first, ..w };
        assert(parts_become(ri.of(id_range), rm.of(id_range), w, y, z));
    }
%before let anchor_start =
    proof {
        assert(erased_tables(ls, ri, self.run_indices, k1, ur, x));
        erase_leaf(ls, ls1, ri, self.run_indices, k1, ur, vx_leaf, vx_new, x);
    }
%at exits
    proof {
        delete_done(t, *self, p, q);
        assert forall|id: u64| id != version_map.this_id && deletes_of(t.chars(), self.chars(), id) implies #[trigger] version_map.rest@.contains_key(id) by {
            let k = deleted_in(ls, self.chars(), k1, k2, p, q, id);
        }
    }
%fn delete_leaf_range
%attr #[verifier::spinoff_prover]
%sub let ($q) = self.gtree.delete_leaf_range($i, $o, $r, |_| {}, |$p, $s| $b,); =>> let vx_i = $i; let vx_o = $o; let vx_r = $r; let mut vx_leaf = self.gtree.vx_take(vx_i); let vx_new = { let $p = &mut vx_leaf; let $s = vx_r; $b }; let ($q) = self.gtree.vx_put_delete(vx_i, vx_o, vx_r, vx_leaf, vx_new);
%sub? range + deleted_range_offset =>> range.add(deleted_range_offset)
    requires
        old(self).tree_ok(), empty_ok(old(self).ls()), has_idx(old(self).ls(), leaf_idx),
        !old(self).ls()[at_idx(old(self).ls(), leaf_idx)].v.is_deleted,
        leaf_offset == vsum(old(self).ls(), at_idx(old(self).ls(), leaf_idx)),
        range.start < range.end <= old(self).ls()[at_idx(old(self).ls(), leaf_idx)].v.n(),
    ensures
        erased(*old(self), *final(self),
            pos(old(self).ls(), at_idx(old(self).ls(), leaf_idx)) + range.start, pos(old(self).ls(), at_idx(old(self).ls(), leaf_idx)) + range.end),
        followed(old(self).ls(), final(self).ls(), at_idx(old(self).ls(), leaf_idx), range.start as int, range.end as int, r),
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost k = at_idx(ls, leaf_idx);
    let ghost ri = self.run_indices;
    let ghost r0 = range;
    proof {
        idx_is(ls, leaf_idx);
        cat_leaf(ls, k);
        leaf_part(ls, ri, k);
        assert(table_ok(ri.of(ls[k].v.text.inserted_by)));
    }
%after let (first_idx , second_idx) =
    let ghost ls1 = self.ls();
    proof {
        self.gtree.facts();
        erase_leaf_before(ls, ls1, ri, k, r0, vx_leaf, vx_new, (first_idx, second_idx));
    }
%before indices . split (run_ts_range , range . end
    let ghost rm = with_table(ri, id_range, *indices);
    proof { table_put(ri, id_range, *indices); }
%after indices . split (run_ts_range , range . end
    proof {
        let w = fr_of(ls[k]);
        let y = Fr { len: r0.start as int, ..w };
        let z = Fr { start: w.start + r0.start, len: w.len - r0.start, idx: first, ..w };
        assert(parts_become(ri.of(id_range), rm.of(id_range), w, y, z));
    }
%at exits
    proof {
        let x = (first_idx, second_idx);
        assert(erased_tables(ls, ri, self.run_indices, k, r0, x));
        assert(returned(ls, ls1, k, r0, x, vx_tail));
        erased_follows(t, *self, k, r0, vx_leaf, vx_new, x, vx_tail);
    }
%fn merge_deletion
%attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
%forloops
%sigsub ops::Range<usize> =>> StdRange<usize>
%sub let gtree = $x; =>> let mut vx_leaf = self.gtree.vx_take(run_idx);
%sub gtree.with_leaf_mut($i, EditRun::delete); =>> vx_leaf.leaf_delete(); self.gtree.vx_set($i, vx_leaf);
%sub? self.gtree.remove_cursor() =>> vx_forget
%sub gtree.remove_cursor() =>> vx_forget
%sub vx_forget =>> self.gtree.remove_cursor()
%sub? self.gtree.leaves::<true>($x) =>> self.gtree.cur_of($x)
%sub? runs.next() =>> self.gtree.cur_next(&mut runs)
%sub? run_idx == end_idx =>> run_idx.same(end_idx)
%sub? ($a..$b).into() =>> URange::from($a..$b)
%sub? (delete_range + leaf_offset).into() =>> URange::into_std(delete_range.add(leaf_offset))
    requires
        old(self).wf(),
        del_ok(old(self).chars(), *deletion),
    ensures
        final(self).wf(),
        final(self).chars() == merge_del(old(self).chars(), *deletion),
        final(self).nruns() == old(self).nruns(),
        ranges_tell(old(self).chars(), final(self).chars(), r@),
%loop 0
    invariant false,
    decreases 0int,
%loop 1
    invariant_except_break
        self.tree_ok(),
        empty_ok(self.ls()),
        same_size(t.run_indices, self.run_indices),
        sound(s, self.ls(), *deletion),
        runs.order() == order(self.ls()),
        runs.place() == k,
        midway(s, self.ls(), *deletion, k, q, end_idx, leaf_offset as int, visible_offset as int, telling(state, ranges@, visible_offset)),
        state_ok(state, ranges@, visible_offset, self.ls(), k, end_idx, *deletion),
    invariant
        d == *deletion,
    ensures
        self.tree_ok(),
        empty_ok(self.ls()),
        same_size(t.run_indices, self.run_indices),
        cat(self.ls()) == merge_del(s, *deletion),
        ranges_tell(s, merge_del(s, *deletion), ranges@),
    decreases s.len() - q, self.ls().len() - k,
%at start
    let ghost t = *self;
    let ghost ls = self.ls();
    let ghost s = self.chars();
    let ghost d = *deletion;
    let ghost f = del_from(s, d);
    proof {
        self.unfold();
        at_is(s, d.start.replica_id, d.start.offset as int);
        at_is(s, d.end.replica_id, d.end.offset - 1);
        let k = char_known(ls, self.run_indices, d.start.replica_id, d.start.offset as int);
        let k = char_known(ls, self.run_indices, d.end.replica_id, d.end.offset - 1);
    }
%after let start_idx =
    let ghost k0 = at_idx(ls, start_idx);
    proof {
        let id = d.start.replica_id;
        let o = d.start.offset as int;
        let w = choose|w: Fr| #[trigger] has_part(self.run_indices.of(id), w) && w.idx == start_idx && w.start <= o < w.start + w.len;
        assert(lf_has(ls, id, w));
        let k = choose|k: int| #[trigger] lf_at(ls, id, w, k);
        idx_only(ls, k);
        char_leaf(ls, id, o, k0);
        cat_leaf(ls, k0);
        leaf_vis(ls, k0, f - pos(ls, k0));
        vsum_le(ls, k0 + 1, ls.len() as int);
        assert(vsum(ls, k0 + 1) == vsum(ls, k0) + ls[k0].v.vlen());
        self.gtree.facts();
    }
%after let start =
    proof {
        assert(start.text.range.start + f - pos(ls, k0) == d.start.offset);
        if start.text.inserted_by == d.end.replica_id && start.text.range.start < d.end.offset <= start.text.range.end {
            char_leaf(ls, d.end.replica_id, d.end.offset - 1, k0);
        }
    }
%before return ranges
    proof {
        if ls[k0].v.is_deleted { start_end_gone(s, ls, d, k0); }
        else { start_end(t, *self, s, d, k0, ranges@); }
    }
%after let end_idx =
    let ghost e0 = at_idx(ls, end_idx);
    proof {
        let id = d.end.replica_id;
        let o = d.end.offset as int;
        let w = choose|w: Fr| #[trigger] has_part(self.run_indices.of(id), w) && w.idx == end_idx && w.start < o <= w.start + w.len;
        assert(lf_has(ls, id, w));
        let k = choose|k: int| #[trigger] lf_at(ls, id, w, k);
        idx_only(ls, k);
        char_leaf(ls, id, o - 1, e0);
        if e0 < k0 { pos_le(ls, e0 + 1, k0); }
        assert(k0 < e0);
    }
%before let (start_idx , mut state)
    let ghost mut q: int = f;
%before (next_idx , DeletionState :: Starting)
    proof {
        q = pos(ls, k0 + 1);
        start_gone(s, ls, d, k0, end_idx);
        idx_only(ls, k0 + 1);
    }
%before (next_idx , DeletionState :: Skipping)
    proof {
        q = pos(ls, k0) + delete_up_to;
        start_part(t, *self, s, d, k0, delete_up_to as int, end_idx, next_idx, ranges@);
    }
%before (next_idx , DeletionState :: Deleting (leaf_offset))
    proof {
        q = pos(ls, k0 + 1);
        assert(q == pos(ls, k0) + len);
        start_part(t, *self, s, d, k0, len as int, end_idx, next_idx, telling(DeletionState::Deleting(leaf_offset), ranges@, visible_offset));
    }
%after let mut runs
    let ghost mut k: int = at_idx(self.ls(), start_idx);
%after let (run_idx , run) =
    let ghost t1 = *self;
    let ghost l1 = self.ls();
    let ghost vo = visible_offset as int;
    let ghost off = leaf_offset as int;
    let ghost list = telling(state, ranges@, visible_offset);
    let ghost st = state;
    let ghost q1 = q;
    let ghost rs = ranges@;
    proof {
        idx_only(l1, k);
        idx_is(l1, end_idx);
        mid_is(s, l1, d, k, q, end_idx, off, vo, list);
        assert(l1[k].v.wf());
        if k < at_idx(l1, end_idx) && l1[k].v.n() == 0 { assert(k == l1.len() - 1); }
        leaf_vis(l1, k, l1[k].v.n());
        vsum_le(l1, k + 1, l1.len() as int);
        assert(vsum(l1, k + 1) == vsum(l1, k) + l1[k].v.vlen());
        self.gtree.facts();
    }
%before 2 break
    proof {
        if l1[k].v.is_deleted { mid_end(s, l1, d, k, q, end_idx, off, vo, list); assert(ranges@ == list); }
        else { mid_last(t1, *self, s, d, k, q, end_idx, off, vo, list, ranges@); }
    }
%before 0 continue
    proof {
        mid_pass(s, l1, d, k, q, end_idx, off, vo, list);
        q = pos(l1, k + 1);
        k = k + 1;
    }
%after leaf_offset += run_len
    proof {
        mid_pass(s, l1, d, k, q, end_idx, off, vo, list);
        q = pos(l1, k + 1);
        k = k + 1;
    }
%before runs = self . gtree
    proof {
        mid_part(t1, *self, s, d, k, q, end_idx, off, vo, list, ranges@, next_idx);
        q = q + delete_up_to;
        k = at_idx(self.ls(), next_idx);
    }
%after visible_offset += run_len
    proof { }
%at loopend 1
    proof {
        mid_gone(s, l1, t1.run_indices, d, k, q, end_idx, off, vo, list, telling(state, ranges@, visible_offset));
        q = pos(l1, k + 1);
        k = k + 1;
    }
%at exits
    proof { merge_del_done(t, *self, d); }
