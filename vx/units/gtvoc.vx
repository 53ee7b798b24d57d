// What contracts say about a tree's leaves.
%use leaf.vx
%use urange.vx
%raw
#[verifier::reject_recursive_types(L)]
pub ghost struct Lf<L> { pub idx: LeafIdx<L>, pub v: L }

pub open spec fn distinct<L>(ls: Seq<Lf<L>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ls.len() ==> (#[trigger] ls[i]).idx != (#[trigger] ls[j]).idx
}
pub open spec fn fresh<L>(ls: Seq<Lf<L>>, idx: LeafIdx<L>) -> bool {
    forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).idx != idx
}
pub open spec fn has_idx<L>(ls: Seq<Lf<L>>, idx: LeafIdx<L>) -> bool {
    exists|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).idx == idx
}
pub open spec fn at_idx<L>(ls: Seq<Lf<L>>, idx: LeafIdx<L>) -> int {
    choose|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).idx == idx
}
/// The length of the first `k` leaves.
pub open spec fn vsum<L: VxLen>(ls: Seq<Lf<L>>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { vsum(ls, k - 1) + ls[k - 1].v.vlen() }
}
/// The leaf an offset falls in or at the end of.
pub open spec fn leaf_at<L: VxLen>(ls: Seq<Lf<L>>, offset: int, k: int) -> bool {
    &&& 0 <= k < ls.len()
    &&& offset <= vsum(ls, k + 1)
    &&& vsum(ls, k) < offset || (offset == 0 && k == 0)
}
pub open spec fn lf<L>(idx: LeafIdx<L>, v: L) -> Lf<L> { Lf { idx, v } }

pub open spec fn order<L>(ls: Seq<Lf<L>>) -> Seq<LeafIdx<L>> { Seq::new(ls.len(), |i: int| ls[i].idx) }
/// The leaf's new value, and the new leaves right after it.
pub open spec fn put<L>(ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, k: int, v: L, more: (Option<L>, Option<L>), r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    let u = ls.update(k, lf(ls[k].idx, v));
    match more {
        (None, None) => r.0 is None && r.1 is None && ls2 == u,
        (Some(a), None) => {
            &&& r.0 is Some && fresh(ls, r.0->Some_0) && ls2 == u.insert(k + 1, lf(r.0->Some_0, a))
            &&& r.1 is None
        },
        (Some(a), Some(b)) => {
            &&& r.0 is Some && fresh(ls, r.0->Some_0)
            &&& r.1 is Some && fresh(ls, r.1->Some_0) && r.0->Some_0 != r.1->Some_0
            &&& ls2 == u.insert(k + 1, lf(r.0->Some_0, a)).insert(k + 2, lf(r.1->Some_0, b))
        },
        _ => false,
    }
}
/// What becomes of a leaf part of which was deleted: the parts are leaves right
/// after it, but one that's deleted may become more of the leaf next to it.
pub open spec fn put_deleted<L: Leaf>(ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, k: int, v: L, more: (Option<L>, Option<L>), r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    put(ls, ls2, k, v, more, r) || (more.0 is Some && more.1 is None && r.0 is None && r.1 is None && {
        let a = more.0->Some_0;
        if a.vlen() == 0 {
            &&& k + 1 < ls.len()
            &&& L::can_join(a, ls[k + 1].v)
            &&& ls2 == ls.update(k, lf(ls[k].idx, v)).update(k + 1, lf(ls[k + 1].idx, L::joined(a, ls[k + 1].v)))
        } else {
            &&& k > 0
            &&& L::can_join(ls[k - 1].v, v)
            &&& ls2 == ls.update(k - 1, lf(ls[k - 1].idx, L::joined(ls[k - 1].v, v))).update(k, lf(ls[k].idx, a))
        }
    })
}
/// What a closure that deletes may leave and return.
pub open spec fn may_leave<L: VxLen>(a: L, v: L, m: (Option<L>, Option<L>)) -> bool {
    &&& 0 <= v.vlen()
    &&& m.0 is None ==> m.1 is None && v.vlen() == 0
    &&& m.0 is Some && m.1 is None && m.0->Some_0.vlen() > 0 ==> v.vlen() == 0
    &&& m.0 is Some ==> 0 <= m.0->Some_0.vlen()
    &&& m.1 is Some ==> 0 <= m.1->Some_0.vlen()
    &&& v.vlen() + (if m.0 is Some { m.0->Some_0.vlen() } else { 0 }) + (if m.1 is Some { m.1->Some_0.vlen() } else { 0 }) <= a.vlen()
}
/// Where a range starts and where it ends.
pub open spec fn spans<L: VxLen>(ls: Seq<Lf<L>>, start: int, end: int, i: int, j: int) -> bool {
    &&& 0 <= i <= j < ls.len()
    &&& vsum(ls, i) <= start < vsum(ls, i + 1)
    &&& vsum(ls, j) < end <= vsum(ls, j + 1)
}
/// From `o1` of the leaf `i1` up to `o2` of `i2`.
#[verifier::reject_recursive_types(L)]
pub struct VxDel<L> { pub within: bool, pub i1: LeafIdx<L>, pub o1: usize, pub i2: LeafIdx<L>, pub o2: usize }
pub open spec fn deletes_at<L: VxLen>(ls: Seq<Lf<L>>, range: URange<usize>, d: VxDel<L>) -> bool {
    let k1 = at_idx(ls, d.i1);
    let k2 = at_idx(ls, d.i2);
    &&& has_idx(ls, d.i1)
    &&& has_idx(ls, d.i2)
    &&& k1 <= k2
    &&& d.within <==> k1 == k2
    &&& range.start == vsum(ls, k1) + d.o1
    &&& range.end == vsum(ls, k2) + d.o2
    &&& d.o1 < ls[k1].v.vlen()
    &&& 0 < d.o2 <= ls[k2].v.vlen()
}
pub open spec fn erased_all<L: Delete>(ls: Seq<Lf<L>>, i: int, j: int) -> Seq<Lf<L>> {
    Seq::new(ls.len(), |x: int| if i <= x < j { lf(ls[x].idx, L::erased(ls[x].v)) } else { ls[x] })
}
/// What deleting across leaves makes of them.
pub open spec fn put_across<L: Delete>(ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, k1: int, v1: L, new1: Option<L>, k2: int, v2: L, new2: Option<L>, r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    let u = erased_all(ls, k1 + 1, k2).update(k1, lf(ls[k1].idx, v1)).update(k2, lf(ls[k2].idx, v2));
    let w = if new2 is Some { u.insert(k2 + 1, lf(r.1->Some_0, new2->Some_0)) } else { u };
    &&& r.0 is Some <==> new1 is Some
    &&& r.1 is Some <==> new2 is Some
    &&& r.0 is Some ==> fresh(ls, r.0->Some_0)
    &&& r.1 is Some ==> fresh(ls, r.1->Some_0)
    &&& r.0 is Some && r.1 is Some ==> r.0->Some_0 != r.1->Some_0
    &&& ls2 == if new1 is Some { w.insert(k1 + 1, lf(r.0->Some_0, new1->Some_0)) } else { w }
}
/// What a closure that deletes up to a leaf's end, or from its start, may leave
/// and return.
pub open spec fn may_keep<L: VxLen>(a: L, v: L, m: Option<L>) -> bool {
    &&& 0 <= v.vlen()
    &&& m is Some ==> 0 <= m->Some_0.vlen()
    &&& v.vlen() + (if m is Some { m->Some_0.vlen() } else { 0 }) <= a.vlen()
}
pub proof fn idx_only<L>(ls: Seq<Lf<L>>, k: int)
    requires distinct(ls), 0 <= k < ls.len(),
    ensures has_idx(ls, ls[k].idx), at_idx(ls, ls[k].idx) == k,
{
    let j = at_idx(ls, ls[k].idx);
    assert(0 <= j < ls.len() && ls[j].idx == ls[k].idx);
    if j < k { assert(ls[j].idx != ls[k].idx); }
    if k < j { assert(ls[k].idx != ls[j].idx); }
}
pub proof fn idx_is<L>(ls: Seq<Lf<L>>, idx: LeafIdx<L>)
    requires has_idx(ls, idx),
    ensures 0 <= at_idx(ls, idx) < ls.len(), ls[at_idx(ls, idx)].idx == idx,
{}
