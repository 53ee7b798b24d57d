// What merging a deletion does, leaf after leaf.
%use leaflemmas.vx
%use treelemmas.vx
%use marklemmas.vx
%use runtreelemmas.vx
%raw
/// What's visible over a stretch that's all deleted, or all visible.
pub proof fn vis_over(s: Seq<Ch>, i: int, j: int, del: bool)
    requires 0 <= i <= j <= s.len(), forall|x: int| i <= x < j ==> (#[trigger] s[x]).del == del,
    ensures vis(s.subrange(0, j)) == vis(s.subrange(0, i)) + if del { 0 } else { j - i },
    decreases j,
{
    if i < j {
        vis_over(s, i, j - 1, del);
        vis_step(s, j - 1);
        assert(s[j - 1].del == del);
    }
}
pub proof fn known_same(s: Seq<Ch>, from: int, q: int, q2: int, vm: VersionMap)
    requires 0 <= from <= q <= q2 <= s.len(), forall|i: int| q <= i < q2 ==> (#[trigger] s[i]).del || !known(s[i], vm),
    ensures mark_known(s, from, q2, vm) == mark_known(s, from, q, vm),
{
    assert forall|i: int| q <= i < q2 implies (if known(s[i], vm) { dead(s[i]) } else { s[i] }) == s[i] by {
        if s[i].del { assert(dead(s[i]) == s[i]); }
    }
    assert(mark_known(s, from, q2, vm) =~= mark_known(s, from, q, vm));
}
pub proof fn known_more(s: Seq<Ch>, from: int, q: int, q2: int, vm: VersionMap)
    requires 0 <= from <= q <= q2 <= s.len(), forall|i: int| q <= i < q2 ==> known(#[trigger] s[i], vm),
    ensures mark(mark_known(s, from, q, vm), q, q2) == mark_known(s, from, q2, vm),
{
    assert(mark(mark_known(s, from, q, vm), q, q2) =~= mark_known(s, from, q2, vm));
}
/// The ranges so far, of which none is past what's visible so far.
pub open spec fn told(s: Seq<Ch>, s2: Seq<Ch>, list: Seq<Range<usize>>, vo: int) -> bool {
    &&& ranges_tell(s, s2, list)
    &&& forall|i: int| 0 <= i < list.len() ==> (#[trigger] list[i]).end <= vo
}
/// One more, or the last one longer.
pub open spec fn grew(list: Seq<Range<usize>>, list2: Seq<Range<usize>>, vo: int, vo2: int) -> bool {
    if list.len() > 0 && list.last().end == vo {
        &&& list2.len() == list.len()
        &&& forall|i: int| 0 <= i < list.len() - 1 ==> #[trigger] list2[i] == list[i]
        &&& list2.last().start == list.last().start
        &&& list2.last().end == vo2
    } else {
        &&& list2.len() == list.len() + 1
        &&& forall|i: int| 0 <= i < list.len() ==> #[trigger] list2[i] == list[i]
        &&& list2.last().start == vo
        &&& list2.last().end == vo2
    }
}
pub proof fn none_told(s: Seq<Ch>, vo: int)
    requires 0 <= vo,
    ensures told(s, s, Seq::empty(), vo),
{}
pub proof fn more_told(s: Seq<Ch>, from: int, q: int, q2: int, vm: VersionMap, list: Seq<Range<usize>>, list2: Seq<Range<usize>>, vo: int)
    requires
        0 <= from <= q < q2 <= s.len(), s.len() <= usize::MAX,
        told(s, mark_known(s, from, q, vm), list, vo),
        vo == vis(s.subrange(0, q)),
        forall|i: int| q <= i < q2 ==> !(#[trigger] s[i]).del && known(s[i], vm),
        grew(list, list2, vo, vo + (q2 - q)),
    ensures
        told(s, mark_known(s, from, q2, vm), list2, vo + (q2 - q)),
        vo + (q2 - q) == vis(s.subrange(0, q2)),
{
    let vo2 = vo + (q2 - q);
    let s1 = mark_known(s, from, q, vm);
    let s2 = mark_known(s, from, q2, vm);
    vis_over(s, q, q2, false);
    vis_cut(s, q2, s.len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
    vis_le(s);
    let m = list.len();
    assert forall|k: int| 0 <= k < list2.len() implies (#[trigger] list2[k]).start < list2[k].end && list2[k].end <= vo2 by {
        if k < m - 1 { assert(list2[k] == list[k]); }
        else if k == m - 1 { assert(list[k].start < list[k].end <= vo); }
    }
    assert forall|k: int, l: int| 0 <= k < l < list2.len() implies (#[trigger] list2[k]).end < (#[trigger] list2[l]).start by {
        assert(list2[k] == list[k]);
        if l < m { assert(list[k].end < list[l].start); }
        else { assert(list[k].end <= vo); if k < m - 1 { assert(list[k].end < list[m - 1].start); assert(list[m - 1].start < list[m - 1].end <= vo); } }
    }
    assert forall|o: int| #![auto] in_ranges(list2, o) <==> in_ranges(list, o) || vo <= o < vo2 by {
        if in_ranges(list2, o) {
            let k = choose|k: int| 0 <= k < list2.len() && (#[trigger] list2[k]).start <= o < list2[k].end;
            if k < list2.len() - 1 { assert(list[k] == list2[k]); }
            else if !(vo <= o < vo2) { assert(list[k].start <= o < list[k].end); }
        }
        if in_ranges(list, o) {
            let k = choose|k: int| 0 <= k < list.len() && (#[trigger] list[k]).start <= o < list[k].end;
            assert(list2[k].start <= o < list2[k].end);
        }
        if vo <= o < vo2 { let k = list2.len() - 1; assert(list2[k].start <= o < list2[k].end); }
    }
    assert forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).del implies (s2[i].del == in_ranges(list2, vis(s.subrange(0, i)) as int)) by {
        let o = vis(s.subrange(0, i)) as int;
        assert(s1[i].del == in_ranges(list, o));
        if i < q {
            vis_step(s, i);
            vis_cut(s, i + 1, q);
        } else if i < q2 {
            vis_over(s, q, i, false);
        } else {
            vis_cut(s, q2, i);
            assert(s2[i] == s1[i]);
        }
    }
}
/// The leaf where the deletion ends is at `end_idx`.
pub open spec fn ends_in(ls: Ls, end: InnerAnchor, end_idx: LeafIdx<EditRun>) -> bool {
    let v = ls[at_idx(ls, end_idx)].v;
    &&& has_idx(ls, end_idx)
    &&& v.text.inserted_by == end.replica_id
    &&& v.text.range.start < end.offset <= v.text.range.end
}
/// Up to `q`, which is where the `k`-th leaf starts, unless that's deleted, the
/// deletion is merged.
pub open spec fn midway(s: Seq<Ch>, ls: Ls, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>) -> bool {
    let s2 = cat(ls);
    let e = at_idx(ls, end_idx);
    &&& s2 == mark_known(s, del_from(s, d), q, d.version_map)
    &&& del_from(s, d) <= q <= del_to(s, d)
    &&& ends_in(ls, d.end, end_idx)
    &&& 0 <= k <= e
    &&& pos(ls, k) <= q <= pos(ls, k + 1)
    &&& pos(ls, k) < q ==> ls[k].v.is_deleted
    &&& off == vis(s2.subrange(0, q))
    &&& vo == vis(s.subrange(0, q))
    &&& told(s, s2, list, vo)
}
pub open spec fn sound(s: Seq<Ch>, ls: Ls, d: Deletion) -> bool {
    &&& gap_free(s)
    &&& del_ok(s, d)
    &&& s.len() <= usize::MAX
    &&& distinct(ls)
    &&& leaves_ok(ls)
}
/// What's visible before it, where the leaf starts, where the deletion ends.
pub proof fn mid_is(s: Seq<Ch>, ls: Ls, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>)
    requires sound(s, ls, d), midway(s, ls, d, k, q, end_idx, off, vo, list),
    ensures
        off == vsum(ls, k),
        k < at_idx(ls, end_idx) ==> pos(ls, k + 1) < del_to(s, d),
        del_to(s, d) == pos(ls, at_idx(ls, end_idx)) + d.end.offset - ls[at_idx(ls, end_idx)].v.text.range.start,
        k == at_idx(ls, end_idx) ==> del_to(s, d) <= pos(ls, k + 1),
        del_to(s, d) <= s.len(), s.len() == cat(ls).len(),
        0 <= pos(ls, k) <= pos(ls, k + 1) <= s.len(),
        pos(ls, k + 1) == pos(ls, k) + ls[k].v.n(),
        k < ls.len(),
        !ls[k].v.is_deleted ==> q == pos(ls, k) && vo + ls[k].v.n() <= s.len(),
        forall|i: int| q <= i < pos(ls, k + 1) ==> #[trigger] s[i] == (Ch {
            id: ls[k].v.text.inserted_by, off: ls[k].v.text.range.start + i - pos(ls, k), run: ls[k].v.run_ts,
            lam: ls[k].v.lamport_ts, del: ls[k].v.is_deleted }),
{
    let s2 = cat(ls);
    let e = at_idx(ls, end_idx);
    idx_is(ls, end_idx);
    leaf_vis(ls, k, q - pos(ls, k));
    cat_leaf(ls, k);
    cat_leaf(ls, e);
    assert(twins(s, s2));
    twins_keep(s, s2, |id: u64| 0, 0);
    at_is(s, d.end.replica_id, d.end.offset - 1);
    at_only(s2, del_to(s, d) - 1);
    char_leaf(ls, d.end.replica_id, d.end.offset - 1, e);
    if k < e { pos_le(ls, k + 1, e); }
    assert forall|i: int| q <= i < pos(ls, k + 1) implies #[trigger] s[i] == s2[i] by {}
    if !ls[k].v.is_deleted {
        vis_over(s, q, pos(ls, k + 1), false);
        vis_le(s.subrange(0, pos(ls, k + 1)));
    }
}
pub proof fn mid_pass(s: Seq<Ch>, ls: Ls, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>)
    requires
        sound(s, ls, d), midway(s, ls, d, k, q, end_idx, off, vo, list), k < at_idx(ls, end_idx),
        ls[k].v.is_deleted || ls[k].v.text.range.start >= d.version_map.at(ls[k].v.text.inserted_by),
    ensures
        ({
            let n = if ls[k].v.is_deleted { 0 } else { ls[k].v.n() };
            midway(s, ls, d, k + 1, pos(ls, k + 1), end_idx, off + n, vo + n, list)
        }),
{
    mid_is(s, ls, d, k, q, end_idx, off, vo, list);
    let q2 = pos(ls, k + 1);
    let s2 = cat(ls);
    known_same(s, del_from(s, d), q, q2, d.version_map);
    vis_over(s, q, q2, ls[k].v.is_deleted);
    assert forall|i: int| q <= i < q2 implies (#[trigger] s2[i]).del == ls[k].v.is_deleted by { assert(s2[i] == s[i]); }
    vis_over(s2, q, q2, ls[k].v.is_deleted);
    assert(ls[k].v.wf());
    idx_is(ls, end_idx);
    cat_leaf(ls, k + 1);
}
pub proof fn mid_gone(s: Seq<Ch>, ls: Ls, ri: RunIndices, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>, list2: Seq<Range<usize>>)
    requires
        sound(s, ls, d), midway(s, ls, d, k, q, end_idx, off, vo, list), k < at_idx(ls, end_idx),
        doc_ok(ls, ri),
        !ls[k].v.is_deleted, ls[k].v.text.range.end <= d.version_map.at(ls[k].v.text.inserted_by),
        grew(list, list2, vo, vo + ls[k].v.n()),
    ensures
        ({
            let ls2 = ls.update(k, gone(ls[k]));
            &&& midway(s, ls2, d, k + 1, pos(ls, k + 1), end_idx, off, vo + ls[k].v.n(), list2)
            &&& doc_ok(ls2, ri)
            &&& pos(ls2, k + 1) == pos(ls, k + 1)
            &&& ls[k].v.n() > 0
        }),
{
    let ls2 = ls.update(k, gone(ls[k]));
    mid_is(s, ls, d, k, q, end_idx, off, vo, list);
    idx_is(ls, end_idx);
    let e = at_idx(ls, end_idx);
    assert(ls[k].v.wf());
    if ls[k].v.n() == 0 { assert(k == ls.len() - 1); }
    gone_leaf(ls, ri, k);
    let q2 = pos(ls, k + 1);
    assert forall|i: int| q <= i < q2 implies !(#[trigger] s[i]).del && known(s[i], d.version_map) by {}
    known_more(s, del_from(s, d), q, q2, d.version_map);
    more_told(s, del_from(s, d), q, q2, d.version_map, list, list2, vo);
    let s1 = cat(ls);
    let s2 = cat(ls2);
    assert(s2.subrange(0, q) =~= s1.subrange(0, q));
    vis_over(s2, q, q2, true);
    assert(ls2[e] == ls[e]);
    assert(ls2[e].idx == end_idx);
    idx_only(ls2, e);
    pos_same(ls2, ls, k);
    assert(ls2[k] == gone(ls[k]));
    assert(pos(ls2, k + 1) == pos(ls2, k) + ls2[k].v.n());
    cat_leaf(ls2, k + 1);
}
/// Only the beginning of the leaf is known.
pub proof fn mid_part(t: RunTree, t2: RunTree, s: Seq<Ch>, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>, list2: Seq<Range<usize>>, r: LeafIdx<EditRun>)
    requires
        sound(s, t.ls(), d), midway(s, t.ls(), d, k, q, end_idx, off, vo, list), k < at_idx(t.ls(), end_idx),
        ({
            let ls = t.ls();
            let o = d.version_map.at(ls[k].v.text.inserted_by) - ls[k].v.text.range.start;
            &&& !ls[k].v.is_deleted
            &&& 0 < o < ls[k].v.n()
            &&& grew(list, list2, vo, vo + o)
            &&& erased(t, t2, pos(ls, k), pos(ls, k) + o)
            &&& followed(ls, t2.ls(), k, 0, o, r)
        }),
    ensures
        ({
            let ls = t.ls();
            let ls2 = t2.ls();
            let o = d.version_map.at(ls[k].v.text.inserted_by) - ls[k].v.text.range.start;
            let j = at_idx(ls2, r);
            &&& midway(s, ls2, d, j, q + o, end_idx, off, vo + o, list2)
            &&& j < at_idx(ls2, end_idx)
            &&& has_idx(ls2, r)
            &&& !ls2[j].v.is_deleted
            &&& ls2[j].v.text.inserted_by == ls[k].v.text.inserted_by
            &&& ls2[j].v.text.range.start >= d.version_map.at(ls2[j].v.text.inserted_by)
        }),
{
    let ls = t.ls();
    let ls2 = t2.ls();
    let o = d.version_map.at(ls[k].v.text.inserted_by) - ls[k].v.text.range.start;
    mid_is(s, ls, d, k, q, end_idx, off, vo, list);
    idx_is(ls, end_idx);
    idx_is(ls2, r);
    let e = at_idx(ls, end_idx);
    let j = at_idx(ls2, r);
    let q2 = q + o;
    assert forall|i: int| q <= i < q2 implies !(#[trigger] s[i]).del && known(s[i], d.version_map) by {}
    known_more(s, del_from(s, d), q, q2, d.version_map);
    more_told(s, del_from(s, d), q, q2, d.version_map, list, list2, vo);
    let s1 = cat(ls);
    let s2 = cat(ls2);
    assert(s2.subrange(0, q) =~= s1.subrange(0, q));
    vis_over(s2, q, q2, true);
    let e2 = j + (e - k);
    let x2 = ls2.subrange(j + 1, ls2.len() as int);
    let x1 = ls.subrange(k + 1, ls.len() as int);
    assert(x2 == x1);
    assert(x2.len() == ls2.len() - (j + 1) && x1.len() == ls.len() - (k + 1));
    assert(x2[e - k - 1] == ls2[e2] && x1[e - k - 1] == ls[e]);
    assert(ls2[e2] == ls[e]);
    idx_only(ls2, e2);
    cat_leaf(ls2, j);
}
/// The leaf where it ends, which is deleted.
pub proof fn mid_end(s: Seq<Ch>, ls: Ls, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>)
    requires
        sound(s, ls, d), midway(s, ls, d, k, q, end_idx, off, vo, list), k == at_idx(ls, end_idx), ls[k].v.is_deleted,
    ensures
        cat(ls) == merge_del(s, d),
        ranges_tell(s, merge_del(s, d), list),
{
    mid_is(s, ls, d, k, q, end_idx, off, vo, list);
    known_same(s, del_from(s, d), q, del_to(s, d), d.version_map);
}
/// ...or not.
pub proof fn mid_last(t: RunTree, t2: RunTree, s: Seq<Ch>, d: Deletion, k: int, q: int, end_idx: LeafIdx<EditRun>, off: int, vo: int, list: Seq<Range<usize>>, list2: Seq<Range<usize>>)
    requires
        sound(s, t.ls(), d), midway(s, t.ls(), d, k, q, end_idx, off, vo, list), k == at_idx(t.ls(), end_idx),
        ({
            let ls = t.ls();
            let o = d.end.offset - ls[k].v.text.range.start;
            &&& !ls[k].v.is_deleted
            &&& grew(list, list2, vo, vo + o)
            &&& erased(t, t2, pos(ls, k), pos(ls, k) + o)
        }),
    ensures
        cat(t2.ls()) == merge_del(s, d),
        ranges_tell(s, merge_del(s, d), list2),
{
    let ls = t.ls();
    mid_is(s, ls, d, k, q, end_idx, off, vo, list);
    let q2 = del_to(s, d);
    at_is(s, d.end.replica_id, d.end.offset - 1);
    assert forall|i: int| q <= i < q2 implies !(#[trigger] s[i]).del && known(s[i], d.version_map) by {
        assert(known(s[q2 - 1], d.version_map));
    }
    known_more(s, del_from(s, d), q, q2, d.version_map);
    more_told(s, del_from(s, d), q, q2, d.version_map, list, list2, vo);
}
/// Where it starts: in the `k`-th leaf, which is deleted from there on.
pub proof fn start_gone(s: Seq<Ch>, ls: Ls, d: Deletion, k: int, end_idx: LeafIdx<EditRun>)
    requires
        sound(s, ls, d), s == cat(ls), ends_in(ls, d.end, end_idx), 0 <= k < at_idx(ls, end_idx),
        pos(ls, k) <= del_from(s, d) < pos(ls, k + 1), ls[k].v.is_deleted,
    ensures
        midway(s, ls, d, k + 1, pos(ls, k + 1), end_idx, vsum(ls, k), vsum(ls, k), Seq::empty()),
{
    let q = pos(ls, k + 1);
    let e = at_idx(ls, end_idx);
    let f = del_from(s, d);
    idx_is(ls, end_idx);
    cat_leaf(ls, k);
    cat_leaf(ls, e);
    pos_le(ls, k + 1, e);
    char_leaf(ls, d.end.replica_id, d.end.offset - 1, e);
    known_same(s, f, f, q, d.version_map);
    assert(mark_known(s, f, f, d.version_map) =~= s);
    leaf_vis(ls, k, ls[k].v.n());
    none_told(s, vsum(ls, k));
    assert(ls[k].v.wf());
    cat_leaf(ls, k + 1);
}
/// ...or visible.
pub proof fn start_part(t: RunTree, t2: RunTree, s: Seq<Ch>, d: Deletion, k: int, o: int, end_idx: LeafIdx<EditRun>, r: LeafIdx<EditRun>, list: Seq<Range<usize>>)
    requires
        sound(s, t.ls(), d), s == cat(t.ls()), ends_in(t.ls(), d.end, end_idx), 0 <= k < at_idx(t.ls(), end_idx),
        ({
            let ls = t.ls();
            let a = del_from(s, d) - pos(ls, k);
            &&& !ls[k].v.is_deleted
            &&& 0 <= a < o <= ls[k].v.n()
            &&& ls[k].v.text.range.start + o <= d.version_map.at(ls[k].v.text.inserted_by)
            &&& o < ls[k].v.n() ==> ls[k].v.text.range.start + o == d.version_map.at(ls[k].v.text.inserted_by)
            &&& erased(t, t2, pos(ls, k) + a, pos(ls, k) + o)
            &&& followed(ls, t2.ls(), k, a, o, r)
            &&& list.len() == 1 && list[0].start == vsum(ls, k) + a && list[0].end == vsum(ls, k) + o
        }),
    ensures
        ({
            let ls = t.ls();
            let ls2 = t2.ls();
            let a = del_from(s, d) - pos(ls, k);
            let j = at_idx(ls2, r);
            &&& midway(s, ls2, d, j, pos(ls, k) + o, end_idx, vsum(ls, k) + a, vsum(ls, k) + o, list)
            &&& has_idx(ls2, r)
            &&& o < ls[k].v.n() ==> j < at_idx(ls2, end_idx) && !ls2[j].v.is_deleted
                && ls2[j].v.text.range.start >= d.version_map.at(ls2[j].v.text.inserted_by)
        }),
{
    let ls = t.ls();
    let ls2 = t2.ls();
    let f = del_from(s, d);
    let a = f - pos(ls, k);
    let j = at_idx(ls2, r);
    let e = at_idx(ls, end_idx);
    let q = pos(ls, k) + o;
    let n = ls[k].v.n();
    idx_is(ls, end_idx);
    cat_leaf(ls, k);
    cat_leaf(ls, e);
    pos_le(ls, k + 1, e);
    char_leaf(ls, d.end.replica_id, d.end.offset - 1, e);
    let s2 = cat(ls2);
    assert forall|i: int| f <= i < q implies !(#[trigger] s[i]).del && known(s[i], d.version_map) by {}
    assert(mark_known(s, f, f, d.version_map) =~= s);
    known_more(s, f, f, q, d.version_map);
    leaf_vis(ls, k, a);
    leaf_vis(ls, k, o);
    none_told(s, vsum(ls, k) + a);
    more_told(s, f, f, q, d.version_map, Seq::empty(), list, vsum(ls, k) + a);
    assert(s2.subrange(0, f) =~= s.subrange(0, f));
    vis_over(s2, f, q, true);
    let d1 = if o < n { k } else { k + 1 };
    idx_is(ls2, r);
    let e2 = j + (e - d1);
    if e > d1 {
        let x2 = ls2.subrange(j + 1, ls2.len() as int);
        let x1 = ls.subrange(d1 + 1, ls.len() as int);
        assert(x2 == x1);
        assert(x2.len() == ls2.len() - (j + 1) && x1.len() == ls.len() - (d1 + 1));
        assert(x2[e - d1 - 1] == ls2[e2] && x1[e - d1 - 1] == ls[e]);
        assert(ls2[e2] == ls[e]);
    }
    assert(ls2[e2].idx == end_idx);
    idx_only(ls2, e2);
    cat_leaf(ls2, j);
}
/// It starts and ends in the same leaf.
pub proof fn start_end(t: RunTree, t2: RunTree, s: Seq<Ch>, d: Deletion, k: int, list: Seq<Range<usize>>)
    requires
        sound(s, t.ls(), d), s == cat(t.ls()), 0 <= k < t.ls().len(),
        ({
            let ls = t.ls();
            let v = ls[k].v;
            let a = del_from(s, d) - pos(ls, k);
            let o = d.end.offset - v.text.range.start;
            &&& v.text.inserted_by == d.end.replica_id && v.text.range.start < d.end.offset <= v.text.range.end
            &&& 0 <= a
            &&& !v.is_deleted
            &&& erased(t, t2, pos(ls, k) + a, pos(ls, k) + o)
            &&& list.len() == 1 && list[0].start == vsum(ls, k) + a && list[0].end == vsum(ls, k) + o
        }),
    ensures
        cat(t2.ls()) == merge_del(s, d),
        ranges_tell(s, merge_del(s, d), list),
{
    let ls = t.ls();
    let f = del_from(s, d);
    let q = del_to(s, d);
    cat_leaf(ls, k);
    char_leaf(ls, d.end.replica_id, d.end.offset - 1, k);
    let o = d.end.offset - ls[k].v.text.range.start;
    assert forall|i: int| f <= i < q implies !(#[trigger] s[i]).del && known(s[i], d.version_map) by {
        assert(known(s[q - 1], d.version_map));
    }
    assert(mark_known(s, f, f, d.version_map) =~= s);
    known_more(s, f, f, q, d.version_map);
    leaf_vis(ls, k, f - pos(ls, k));
    leaf_vis(ls, k, o);
    none_told(s, vsum(ls, k) + f - pos(ls, k));
    more_told(s, f, f, q, d.version_map, Seq::empty(), list, vsum(ls, k) + f - pos(ls, k));
}
pub proof fn start_end_gone(s: Seq<Ch>, ls: Ls, d: Deletion, k: int)
    requires
        sound(s, ls, d), s == cat(ls), 0 <= k < ls.len(), ls[k].v.is_deleted, pos(ls, k) <= del_from(s, d),
        ls[k].v.text.inserted_by == d.end.replica_id, ls[k].v.text.range.start < d.end.offset <= ls[k].v.text.range.end,
    ensures
        s == merge_del(s, d),
        ranges_tell(s, merge_del(s, d), Seq::empty()),
{
    let f = del_from(s, d);
    let q = del_to(s, d);
    cat_leaf(ls, k);
    char_leaf(ls, d.end.replica_id, d.end.offset - 1, k);
    known_same(s, f, f, q, d.version_map);
    assert(mark_known(s, f, f, d.version_map) =~= s);
    none_told(s, 0);
}
pub proof fn merge_del_done(t: RunTree, t2: RunTree, d: Deletion)
    requires
        t.wf(), t2.tree_ok(), empty_ok(t2.ls()), cat(t2.ls()) == merge_del(cat(t.ls()), d), same_size(t.run_indices, t2.run_indices),
    ensures t2.wf(), t2.chars() == merge_del(t.chars(), d), t2.nruns() == t.nruns(),
{
    t.unfold();
    reveal(RunTree::nruns);
    assert(t2.nruns() =~= t.nruns());
    twins_keep(cat(t.ls()), cat(t2.ls()), t.nruns(), 0);
    t2.fold();
}
