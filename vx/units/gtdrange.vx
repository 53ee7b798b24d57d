// Deleting a range: finding the leaf it's in, if it's in one.
%use gtdel.vx
%raw
/// `.iter().map(closure).enumerate()`, the closure giving lengths; `sums` is what
/// the first of them add up to.
pub struct VxLens<'a, T, F> { pub s: &'a [T], pub f: F, pub i: usize, pub sums: Ghost<spec_fn(int) -> int> }
pub trait VxSums {
    spec fn n(&self) -> int;
    spec fn at(&self) -> int;
    spec fn sum(&self, k: int) -> int;
    spec fn ok(&self) -> bool;
    fn next(&mut self) -> (r: Option<(usize, usize)>)
        requires old(self).ok(),
        ensures
            final(self).ok(), final(self).n() == old(self).n(), forall|k: int| #[trigger] final(self).sum(k) == old(self).sum(k),
            0 <= old(self).at() <= old(self).n(),
            old(self).at() < old(self).n() ==> {
                &&& r is Some && r->Some_0.0 == old(self).at() && final(self).at() == old(self).at() + 1
                &&& r->Some_0.1 == old(self).sum(old(self).at() + 1) - old(self).sum(old(self).at())
            },
            old(self).at() >= old(self).n() ==> r is None && final(self).at() == old(self).at(),
    ;
}
impl<'a, T: Copy, F: Fn(T) -> usize> VxSums for VxLens<'a, T, F> {
    open spec fn n(&self) -> int { self.s@.len() as int }
    open spec fn at(&self) -> int { self.i as int }
    open spec fn sum(&self, k: int) -> int { (self.sums@)(k) }
    open spec fn ok(&self) -> bool {
        &&& self.i <= self.s@.len()
        &&& forall|j: int| 0 <= j < self.s@.len() ==> self.f.requires((#[trigger] self.s@[j],))
        &&& forall|j: int, r: usize| 0 <= j < self.s@.len() && self.f.ensures((#[trigger] self.s@[j],), r) ==> #[trigger] id(r) == (self.sums@)(j + 1) - (self.sums@)(j)
    }
    fn next(&mut self) -> (r: Option<(usize, usize)>) {
        if self.i < self.s.len() {
            let k = self.i;
            self.i = k + 1;
            let v = (self.f)(self.s[k]);
            assert(id(v) == v);
            Some((k, v))
        } else { None }
    }
}
pub open spec fn id(r: usize) -> int { r as int }
pub fn vx_lens<'a, T, F>(s: &'a [T], f: F, sums: Ghost<spec_fn(int) -> int>) -> (r: VxLens<'a, T, F>)
    ensures r.s == s, r.f == f, r.i == 0, r.sums == sums,
{ VxLens { s, f, i: 0, sums } }
/// The length of an inode's first children.
#[verifier::opaque]
pub open spec fn ksum(t: T, x: int, j: int) -> int { t.tot(t.nd[x].lev - 1, t.nd[x].kids.take(j)) }
pub proof fn ksums<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int)
    requires g.sound(), 0 <= x < g.inodes@.len(),
    ensures
        ({
            let t = g.t@;
            let k = t.nd[x].lev - 1;
            let ks = t.nd[x].kids;
            &&& ks.len() > 0 && ksum(t, x, 0) == 0 && ksum(t, x, ks.len() as int) == t.nd[x].len && t.nd[x].len <= usize::MAX
            &&& forall|j: int| 0 <= j < ks.len() ==> ksum(t, x, j) <= #[trigger] ksum(t, x, j + 1)
            &&& forall|j: int| 0 <= j <= ks.len() ==> 0 <= #[trigger] ksum(t, x, j) <= t.nd[x].len
            &&& k == 0 ==> forall|j: int| 0 <= j < ks.len() ==> ksum(t, x, j + 1) == ksum(t, x, j) + g.lnodes@[#[trigger] ks[j]].value.vlen()
            &&& k == 0 ==> forall|j: int| 0 <= j < ks.len() ==> 0 <= g.lnodes@[#[trigger] ks[j]].value.vlen() <= usize::MAX
            &&& k > 0 ==> forall|j: int| 0 <= j < ks.len() ==> ksum(t, x, j + 1) == ksum(t, x, j) + g.inodes@[#[trigger] ks[j]].tot_len
        }),
{
    reveal(ksum);
    let t = g.t@;
    let k = t.nd[x].lev - 1;
    let ks = t.nd[x].kids;
    let w = at_node(g, x);
    assert(t.node_ok(w.0, x));
    assert(ks.len() > 0);
    assert(ks.take(0) =~= Seq::<int>::empty());
    assert(ks.take(ks.len() as int) =~= ks);
    kid_tot(g, x, 0);
    assert forall|j: int| 0 <= j < ks.len() implies ksum(t, x, j) <= #[trigger] ksum(t, x, j + 1) by { kid_tot(g, x, j); }
    assert forall|j: int| 0 <= j <= ks.len() implies 0 <= #[trigger] ksum(t, x, j) <= t.nd[x].len by { if j < ks.len() { kid_tot(g, x, j); } }
    if k == 0 {
        assert forall|j: int| 0 <= j < ks.len() implies ksum(t, x, j + 1) == ksum(t, x, j) + g.lnodes@[#[trigger] ks[j]].value.vlen() && 0 <= g.lnodes@[ks[j]].value.vlen() <= usize::MAX by { kid_tot(g, x, j); }
    } else {
        assert forall|j: int| 0 <= j < ks.len() implies ksum(t, x, j + 1) == ksum(t, x, j) + g.inodes@[#[trigger] ks[j]].tot_len by { kid_tot(g, x, j); }
    }
}
%file gtree.rs
%alias Range URange
%free child_containing_range/measure
%forloops
%sigsub I: Iterator<Item = Length> =>> I: VxSums
%sub in iter.enumerate() =>> in iter
    requires
        iter.ok(), iter.at() == 0, 0 <= iter.n(), iter.sum(0) == 0, range.start < range.end <= iter.sum(iter.n()) <= usize::MAX,
        forall|k: int| 0 <= k < iter.n() ==> #[trigger] iter.sum(k) <= iter.sum(k + 1),
        forall|k: int| 0 <= k <= iter.n() ==> 0 <= #[trigger] iter.sum(k) <= iter.sum(iter.n()),
    ensures
        match r {
            Some((i, off)) => 0 <= i < iter.n() && off == iter.sum(i as int) && off <= range.start && range.end <= iter.sum(i + 1),
            None => exists|i: int| 0 <= i < iter.n() && #[trigger] iter.sum(i) <= range.start < iter.sum(i + 1) < range.end,
        },
%at start
    let ghost it0 = iter;
%loop 0
    invariant
        it0 == iter, vx_it.ok(), vx_it.n() == it0.n(), forall|k: int| #[trigger] vx_it.sum(k) == it0.sum(k), 0 <= vx_it.at() <= vx_it.n(),
        offset == it0.sum(vx_it.at()), offset <= range.start,
        range.start < range.end <= it0.sum(it0.n()) <= usize::MAX,
        forall|k: int| 0 <= k <= it0.n() ==> 0 <= #[trigger] it0.sum(k) <= it0.sum(it0.n()),
    ensures vx_it.at() == vx_it.n(),
    decreases vx_it.n() - vx_it.at(),
%at loopstart 0
    proof { if vx_it.at() < vx_it.n() { assert(it0.sum(vx_it.at()) == offset); assert(it0.sum(vx_it.at() + 1) <= it0.sum(it0.n())); } }
%after offset += child_len
    proof { assert(it0.sum(vx_it.at() - 1) + child_len == it0.sum(vx_it.at())); }
%impl Gtree<ARITY,L>
%fn child_containing_range
%sub inode_idxs.iter().map(|&$i| $e) =>> vx_lens(inode_idxs, |$i| $e, Ghost(|j: int| ksum(t, x, j)))
%sub leaf_idxs.iter().map(|&$i| $e) =>> vx_lens(leaf_idxs, |$i| $e, Ghost(|j: int| ksum(t, x, j)))
    requires self.sound(), of_inode.0 < self.inodes@.len(), range.start < range.end <= self.t@.nd[of_inode.0 as int].len,
    ensures
        ({
            let n = self.t@.nd[of_inode.0 as int];
            match r {
                Some((i, off)) => {
                    &&& 0 <= i < n.kids.len()
                    &&& off == ksum(self.t@, of_inode.0 as int, i as int)
                    &&& off <= range.start && range.end <= ksum(self.t@, of_inode.0 as int, i + 1)
                },
                None => exists|i: int| 0 <= i < n.kids.len() && #[trigger] ksum(self.t@, of_inode.0 as int, i) <= range.start < ksum(self.t@, of_inode.0 as int, i + 1) < range.end,
            }
        }),
%closure 0 |idx: InodeIdx|
    -> (r: usize) requires idx.0 < self.inodes@.len() ensures r == self.inodes@[idx.0 as int].tot_len
%closure 2 |idx: LeafIdx<L>|
    -> (r: usize) requires idx.idx < self.lnodes@.len(), 0 <= self.lnodes@[idx.idx as int].value.vlen() <= usize::MAX ensures r == self.lnodes@[idx.idx as int].value.vlen()
%at start
    let ghost x = of_inode.0 as int;
    let ghost t = self.t@;
    let ghost ks = t.nd[x].kids;
    let ghost k = t.nd[x].lev - 1;
    proof {
        let w = at_node(*self, x);
        ksums(*self, x);
    }
%fn next_non_empty_sibling
%forloops
%sub leaf_idxs[$n..].iter().enumerate() =>> vx_enum(vx_from(leaf_idxs, $n))
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int), self.t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
    ensures
        r matches Some(n) ==> {
            let t = self.t@;
            let p = t.pos(leaf_idx.idx as int);
            let q = t.pos(n.0.idx as int);
            &&& t.leaf_in(n.0.idx as int) && t.kid_at(n.0.idx as int, n.1 as int) && q > p
            &&& t.pre(q) == t.pre(p + 1) && t.pre(q + 1) == t.pre(q) + t.llen[n.0.idx as int] && t.llen[n.0.idx as int] > 0
            &&& 0 <= n.0.idx < self.lnodes@.len() && self.lnodes@[n.0.idx as int].value.vlen() == t.llen[n.0.idx as int] && 0 <= t.pre(q) && t.pre(q + 1) <= usize::MAX
        },
%at start
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof { beside(*self, c, idx_in_parent as int, idx_in_parent as int); leaf_len(*self, p); }
%loop 0
    invariant_except_break
        vx_found is None,
        t.pre(p + 1 + vx_it.i) == t.pre(p + 1),
    invariant
        self.sound(), t == self.t@, c == leaf_idx.idx, p == t.pos(c), t.leaf_in(c), t.kid_at(c, idx_in_parent as int),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == t.nd[t.lpar[c]].kids.len() - idx_in_parent - 1,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == t.nd[t.lpar[c]].kids[idx_in_parent + 1 + j],
        idx_in_parent + 1 + vx_it.s@.len() <= usize::MAX,
    ensures
        vx_found matches Some(n) ==> {
            let n: (LeafIdx<L>, usize) = n;
            let q = t.pos(n.0.idx as int);
            &&& t.leaf_in(n.0.idx as int) && t.kid_at(n.0.idx as int, n.1 as int) && q > p
            &&& t.pre(q) == t.pre(p + 1) && t.pre(q + 1) == t.pre(q) + t.llen[n.0.idx as int] && t.llen[n.0.idx as int] > 0
            &&& 0 <= n.0.idx < self.lnodes@.len() && self.lnodes@[n.0.idx as int].value.vlen() == t.llen[n.0.idx as int] && 0 <= t.pre(q) && t.pre(q + 1) <= usize::MAX
        },
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    proof {
        if vx_it.i < vx_it.s@.len() {
            let j = idx_in_parent + 1 + vx_it.i;
            assert(vx_it.s@[vx_it.i as int].idx == t.nd[t.lpar[c]].kids[j]);
            beside(*self, c, idx_in_parent as int, j);
            leaf_len(*self, p - idx_in_parent + j);
        }
    }
%raw
/// What the closures given to `delete` may do: what deletes within a leaf...
#[verifier::prophetic]
pub open spec fn may_within<L: Leaf, F: FnOnce(&mut L, URange<usize>) -> (Option<L>, Option<L>)>(ls: Seq<Lf<L>>, start: int, end: int, i: int, f: F) -> bool {
    let o = URange { start: (start - vsum(ls, i)) as usize, end: (end - vsum(ls, i)) as usize };
    &&& forall|a: &mut L| *a == ls[i].v ==> #[trigger] f.requires((a, o))
    &&& forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] f.ensures((a, o), m) && *a == ls[i].v ==> may_leave(*a, *final(a), m)
}
/// ...and what deletes part of one.
#[verifier::prophetic]
pub open spec fn may_part<L: Leaf, F: FnOnce(&mut L, usize) -> Option<L>>(v: L, o: int, f: F) -> bool {
    &&& forall|a: &mut L| *a == v ==> #[trigger] f.requires((a, o as usize))
    &&& forall|a: &mut L, m: Option<L>| #[trigger] f.ensures((a, o as usize), m) && *a == v ==> may_keep(*a, *final(a), m)
}
#[verifier::prophetic]
pub open spec fn may_parts<L: Leaf, F: FnOnce(&mut L, usize) -> Option<L>, U: FnOnce(&mut L, usize) -> Option<L>>(ls: Seq<Lf<L>>, start: int, end: int, i: int, j: int, f: F, u: U) -> bool {
    may_part(ls[i].v, start - vsum(ls, i), f) && may_part(ls[j].v, end - vsum(ls, j), u)
}
#[verifier::prophetic]
pub open spec fn did_within<L: Leaf, F: FnOnce(&mut L, URange<usize>) -> (Option<L>, Option<L>)>(ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, start: int, end: int, i: int, f: F, r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    let o = URange { start: (start - vsum(ls, i)) as usize, end: (end - vsum(ls, i)) as usize };
    exists|a: &mut L, m: (Option<L>, Option<L>)| *a == ls[i].v && #[trigger] f.ensures((a, o), m) && put_deleted(ls, ls2, i, *final(a), m, r)
}
#[verifier::prophetic]
pub open spec fn did_parts<L: Delete, F: FnOnce(&mut L, usize) -> Option<L>, U: FnOnce(&mut L, usize) -> Option<L>>(ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, start: int, end: int, i: int, j: int, f: F, u: U, r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    exists|a: &mut L, m: Option<L>, b: &mut L, n: Option<L>| *a == ls[i].v && *b == ls[j].v
        && #[trigger] f.ensures((a, (start - vsum(ls, i)) as usize), m) && #[trigger] u.ensures((b, (end - vsum(ls, j)) as usize), n)
        && put_across(ls, ls2, i, *final(a), m, j, *final(b), n, r)
}
#[verifier::prophetic]
pub open spec fn did_across<L: Delete, F: FnOnce(&mut L, usize) -> Option<L>, U: FnOnce(&mut L, usize) -> Option<L>>(ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, start: int, end: int, f: F, u: U, r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    exists|i: int, j: int| #[trigger] spans(ls, start, end, i, j) && i < j && did_parts(ls, ls2, start, end, i, j, f, u, r)
}
/// What `delete` did.
#[verifier::prophetic]
pub open spec fn did_delete<L: Delete, R: FnOnce(&mut L, URange<usize>) -> (Option<L>, Option<L>), F: FnOnce(&mut L, usize) -> Option<L>, U: FnOnce(&mut L, usize) -> Option<L>>(
    ls: Seq<Lf<L>>, ls2: Seq<Lf<L>>, start: int, end: int, w: R, f: F, u: U, r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>)) -> bool {
    ||| exists|i: int| #[trigger] spans(ls, start, end, i, i) && did_within(ls, ls2, start, end, i, w, r)
    ||| did_across(ls, ls2, start, end, f, u, r)
}
/// What's before an inode.
pub open spec fn from_of(t: T, k: int, q: int) -> int { t.tot(k, t.lv[k].take(q)) }
/// A range in a leaf.
pub proof fn range_leaf<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, c: int, j0: int, start: int, end: int)
    requires g.wf(), g.found(c, g.t@.pre(g.t@.pos(c)), j0), start < end, g.t@.pre(g.t@.pos(c)) <= start, end <= g.t@.pre(g.t@.pos(c)) + g.t@.llen[c],
    ensures
        spans(g.leaves(), start, end, g.t@.pos(c), g.t@.pos(c)),
        g.leaves()[g.t@.pos(c)].v == g.lnodes@[c].value, 0 <= c < g.lnodes@.len(), g.lnodes@[c].value.vlen() == g.t@.llen[c],
        vsum(g.leaves(), g.t@.pos(c)) == g.t@.pre(g.t@.pos(c)), 0 <= g.t@.pre(g.t@.pos(c)), g.t@.pre(g.t@.pos(c)) + g.t@.llen[c] <= usize::MAX,
{
    leaf_facts(g);
    sound_parts(g);
    pos_in(g.t@, c);
    leaf_len(g, g.t@.pos(c));
}
%file gtree.rs
%alias Range URange
%impl Gtree<ARITY,L>
%fn delete_range_in_inode
%trusted
    requires
        old(self).sound(), idx.0 < old(self).inodes@.len(), range.start < range.end <= old(self).t@.nd[idx.0 as int].len,
        exists|i: int| 0 <= i < old(self).t@.nd[idx.0 as int].kids.len() && #[trigger] ksum(old(self).t@, idx.0 as int, i) <= range.start < ksum(old(self).t@, idx.0 as int, i + 1) < range.end,
        forall|k: int, q: int, i: int, j: int| #[trigger] old(self).t@.inode_at(k, q) && old(self).t@.lv[k][q] == idx.0
            && #[trigger] spans(old(self).leaves(), from_of(old(self).t@, k, q) + range.start, from_of(old(self).t@, k, q) + range.end, i, j) && i < j
            ==> may_parts(old(self).leaves(), from_of(old(self).t@, k, q) + range.start, from_of(old(self).t@, k, q) + range.end, i, j, delete_from, delete_up_to),
    ensures
        final(self).wf(),
        forall|k: int, q: int| #[trigger] old(self).t@.inode_at(k, q) && old(self).t@.lv[k][q] == idx.0
            ==> did_across(old(self).leaves(), final(self).leaves(), from_of(old(self).t@, k, q) + range.start, from_of(old(self).t@, k, q) + range.end, delete_from, delete_up_to, r),
%fn delete_range
%attr #[verifier::loop_isolation(false)]
    requires
        old(self).wf(), range.start < range.end <= old(self).t@.nd[old(self).t@.root()].len,
        forall|i: int| #[trigger] spans(old(self).leaves(), range.start as int, range.end as int, i, i) ==> may_within(old(self).leaves(), range.start as int, range.end as int, i, delete_range),
        forall|i: int, j: int| #[trigger] spans(old(self).leaves(), range.start as int, range.end as int, i, j) && i < j
            ==> may_parts(old(self).leaves(), range.start as int, range.end as int, i, j, delete_from, delete_up_to),
    ensures
        final(self).wf(),
        did_delete(old(self).leaves(), final(self).leaves(), range.start as int, range.end as int, delete_range, delete_from, delete_up_to, r),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost r0 = range;
    let ghost ls = self.leaves();
    let ghost mut k = t.h();
    let ghost mut q = 0int;
    let ghost e = range.end - range.start;
    proof {
        above(*self);
        at_root(*self);
    }
%loop 0
    invariant
        *self == g, t == g.t@, ls == g.leaves(), g.wf(), t.inode_at(k, q), t.lv[k][q] == idx.0, idx.0 < g.inodes@.len(),
        leaf_offset == t.tot(k, t.lv[k].take(q)),
        range.start + leaf_offset == r0.start, range.end + leaf_offset == r0.end, r0.start < r0.end,
        range.end <= t.nd[idx.0 as int].len,
        forall|i: int| #[trigger] spans(ls, r0.start as int, r0.end as int, i, i) ==> may_within(ls, r0.start as int, r0.end as int, i, delete_range),
        forall|i: int, j: int| #[trigger] spans(ls, r0.start as int, r0.end as int, i, j) && i < j
            ==> may_parts(ls, r0.start as int, r0.end as int, i, j, delete_from, delete_up_to),
    decreases k,
%at loopstart 0
    let ghost w = at_node(*self, idx.0 as int);
    proof { one_at(*self, k, q, w.0, w.1); ksums(*self, idx.0 as int); }
%before leaf_offset += offset
    proof {
        reveal(ksum);
        below(*self, k, q, child_idx as int);
        kid_tot(*self, idx.0 as int, child_idx as int);
    }
%before return self.delete_range_in_leaf
    let ghost p = t.st(1, q) + child_idx;
    proof {
        let z = at_leaf(*self, p);
        tot_at(t, 0, t.lv[0], p);
        range_leaf(*self, leaf_idx.idx as int, child_idx as int, r0.start as int, r0.end as int);
        assert(may_within(ls, r0.start as int, r0.end as int, p, delete_range));
        assert(range == URange { start: (r0.start - vsum(ls, p)) as usize, end: (r0.end - vsum(ls, p)) as usize });
    }
%after idx = inode_idx
    proof { q = t.st(k, q) + child_idx; k = k - 1; }
%before return self.delete_range_in_inode
    proof {
        assert forall|k2: int, q2: int| #[trigger] t.inode_at(k2, q2) && t.lv[k2][q2] == idx.0 implies from_of(t, k2, q2) == leaf_offset by { one_at(*self, k, q, k2, q2); }
        assert(from_of(t, k, q) + range.start == r0.start && from_of(t, k, q) + range.end == r0.end);
    }
%fn delete
%sub? ($a..$b).contains_range($c) =>> (URange { start: $a, end: $b }).contains_range($c)
%sub? range - cursor.offset =>> range.sub(cursor.offset)
%sub? range - cursor_end =>> range.sub(cursor_end)
    requires
        old(self).wf(), range.start < range.end <= old(self).t@.nd[old(self).t@.root()].len,
        forall|i: int| #[trigger] spans(old(self).leaves(), range.start as int, range.end as int, i, i) ==> may_within(old(self).leaves(), range.start as int, range.end as int, i, delete_range),
        forall|i: int, j: int| #[trigger] spans(old(self).leaves(), range.start as int, range.end as int, i, j) && i < j
            ==> may_parts(old(self).leaves(), range.start as int, range.end as int, i, j, delete_from, delete_up_to),
    ensures
        final(self).wf(),
        did_delete(old(self).leaves(), final(self).leaves(), range.start as int, range.end as int, delete_range, delete_from, delete_up_to, r),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost ls = self.leaves();
    proof {
        at_root(g);
        if let Some(cu) = self.cursor {
            sound_parts(g);
            pos_in(t, cu.leaf_idx.idx as int);
            leaf_len(g, t.pos(cu.leaf_idx.idx as int));
        }
    }
%before return self.delete_range_in_leaf
    proof {
        let c = cursor.leaf_idx.idx as int;
        range_leaf(g, c, cursor.child_idx as int, range.start as int, range.end as int);
        assert(may_within(ls, range.start as int, range.end as int, t.pos(c), delete_range));
        assert(URange { start: (range.start - cursor.offset) as usize, end: (range.end - cursor.offset) as usize } == URange { start: (range.start - vsum(ls, t.pos(c))) as usize, end: (range.end - vsum(ls, t.pos(c))) as usize });
    }
%before 1 return self.delete_range_in_leaf
    proof {
        let c = leaf_idx.idx as int;
        range_leaf(g, c, child_idx as int, range.start as int, range.end as int);
        assert(may_within(ls, range.start as int, range.end as int, t.pos(c), delete_range));
        assert(URange { start: (range.start - cursor_end) as usize, end: (range.end - cursor_end) as usize } == URange { start: (range.start - vsum(ls, t.pos(c))) as usize, end: (range.end - vsum(ls, t.pos(c))) as usize });
    }
