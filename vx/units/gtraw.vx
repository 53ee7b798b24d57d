// Changing the tree's memory.
%use gtread.vx
%use ordering.vx
%raw
/// The lengths' total doesn't depend on what the level is called.
pub proof fn tot_same(a: T, ka: int, b: T, kb: int, xs: Seq<int>)
    requires forall|i: int| 0 <= i < xs.len() ==> a.len(ka, #[trigger] xs[i]) == b.len(kb, xs[i]),
    ensures a.tot(ka, xs) == b.tot(kb, xs),
    decreases xs.len(),
{
    if xs.len() > 0 {
        let d = xs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies a.len(ka, #[trigger] d[i]) == b.len(kb, d[i]) by { assert(d[i] == xs[i]); }
        tot_same(a, ka, b, kb, d);
        assert(xs[xs.len() - 1] == xs.last());
    }
}
/// Pushing an inode, whose children become its own.
pub open spec fn pushed(rt: T, n: Nd, par: int) -> T {
    let y = rt.nd.len() as int;
    T {
        nd: (if n.lev == 1 { rt.nd } else { adopt_nd(rt.nd, n.kids, y) }).push(Nd { par, ..n }),
        lpar: if n.lev == 1 { adopt(rt.lpar, n.kids, y) } else { rt.lpar },
        llen: rt.llen,
        lv: rt.lv,
    }
}
/// `a` and what's split off it, `s`, make up a node with these children and this length.
pub open spec fn joint(rt: T, a: Nd, s: Option<Nd>, kids: Seq<int>, len: int) -> bool {
    let k = a.lev - 1;
    match s {
        None => a.kids == kids && a.len == len,
        Some(n) => {
            &&& a.kids + n.kids == kids
            &&& a.len + n.len == len
            &&& a.kids.len() >= 1 && n.kids.len() >= 1
            &&& n.lev == a.lev
            &&& rt.tot(k, a.kids) == a.len
            &&& rt.tot(k, n.kids) == n.len
        },
    }
}
pub open spec fn onds<const ARITY: usize, L: Leaf>(s: Option<Inode<ARITY, L>>) -> Option<Nd> {
    match s { None => None, Some(n) => Some(n.nd()) }
}
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// Nothing but inodes differ.
    pub open spec fn same_but_inodes(self, o: Self) -> bool {
        &&& self.lnodes == o.lnodes && self.root_idx == o.root_idx && self.cursor == o.cursor && self.t == o.t
        &&& self.inodes@.len() == o.inodes@.len()
    }
    /// Nothing but one inode differs.
    pub open spec fn same_but(self, o: Self, x: int) -> bool {
        &&& self.same_but_inodes(o)
        &&& forall|z: int| 0 <= z < self.inodes@.len() && z != x ==> #[trigger] self.inodes@[z] == o.inodes@[z]
        &&& self.inodes@[x].has_leaves == o.inodes@[x].has_leaves
        &&& self.inodes@[x].parent == o.inodes@[x].parent
    }
    pub open spec fn kids_in(self, n: Inode<ARITY, L>) -> bool {
        &&& n.fits()
        &&& n.has_leaves ==> forall|j: int| 0 <= j < n.num_children ==> 0 <= (#[trigger] n.kids()[j]) < self.lnodes@.len() && self.lnodes@[n.kids()[j]].value.vlen() >= 0
        &&& !n.has_leaves ==> forall|j: int| 0 <= j < n.num_children ==> 0 <= (#[trigger] n.kids()[j]) < self.inodes@.len()
    }
    /// An inode whose length is its children's.
    pub open spec fn exact(self, x: int) -> bool {
        &&& 0 <= x < self.inodes@.len()
        &&& self.fits()
        &&& self.kids_in(self.inodes@[x])
        &&& self.real().off(x) == 0
    }
}
pub proof fn real_but<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, o: Gtree<ARITY, L>, x: int)
    requires g.same_but(o, x), 0 <= x < g.inodes@.len(),
    ensures
        g.real().nd == o.real().nd.update(x, g.inodes@[x].nd()), g.real().lpar == o.real().lpar, g.real().llen == o.real().llen, g.real().lv == o.real().lv,
        o.fits() && g.inodes@[x].fits() ==> g.fits(),
{
    assert(g.real().nd =~= o.real().nd.update(x, g.inodes@[x].nd()));
    if o.fits() && g.inodes@[x].fits() {
        assert forall|z: int| 0 <= z < g.inodes@.len() implies (#[trigger] g.inodes@[z]).fits() by {
            if z != x { assert(g.inodes@[z] == o.inodes@[z]); assert(o.inodes@[z].fits()); }
        }
    }
}
pub proof fn same_real<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, o: Gtree<ARITY, L>)
    requires g.inodes@ =~= o.inodes@, g.lnodes@ =~= o.lnodes@,
    ensures g.real() == o.real(), g.fits() == o.fits(), forall|x: int| #[trigger] g.exact(x) == o.exact(x),
{
    assert(g.inodes@ == o.inodes@);
    assert(g.lnodes@ == o.lnodes@);
    assert(g.real().nd =~= o.real().nd);
    assert(g.real().lpar =~= o.real().lpar);
    assert(g.real().llen =~= o.real().llen);
    assert(g.real() == o.real());
    assert(g.fits() == o.fits());
    assert forall|x: int| #[trigger] g.exact(x) == o.exact(x) by {}
}
/// Two more children, of either half of a node.
pub proof fn two_left(rt: T, k: int, ks: Seq<int>, m: int, o1: int, c1: int, o2: int, c2: int)
    requires 0 <= o1 <= o2 <= m <= ks.len(),
    ensures
        ks.take(m).insert(o1, c1).insert(o2 + 1, c2) + ks.skip(m) == ks.insert(o1, c1).insert(o2 + 1, c2),
        rt.tot(k, ks.take(m).insert(o1, c1).insert(o2 + 1, c2)) == rt.tot(k, ks.take(m)) + rt.len(k, c1) + rt.len(k, c2),
{
    tot_insert(rt, k, ks.take(m), o1, c1);
    tot_insert(rt, k, ks.take(m).insert(o1, c1), o2 + 1, c2);
    assert(ks.take(m).insert(o1, c1).insert(o2 + 1, c2) + ks.skip(m) =~= ks.insert(o1, c1).insert(o2 + 1, c2));
}
pub proof fn two_right(rt: T, k: int, ks: Seq<int>, m: int, o1: int, c1: int, o2: int, c2: int)
    requires 0 <= m <= o1 <= o2 <= ks.len(),
    ensures
        ks.take(m) + ks.skip(m).insert(o1 - m, c1).insert(o2 - m + 1, c2) == ks.insert(o1, c1).insert(o2 + 1, c2),
        rt.tot(k, ks.skip(m).insert(o1 - m, c1).insert(o2 - m + 1, c2)) == rt.tot(k, ks.skip(m)) + rt.len(k, c1) + rt.len(k, c2),
{
    tot_insert(rt, k, ks.skip(m), o1 - m, c1);
    tot_insert(rt, k, ks.skip(m).insert(o1 - m, c1), o2 - m + 1, c2);
    assert(ks.take(m) + ks.skip(m).insert(o1 - m, c1).insert(o2 - m + 1, c2) =~= ks.insert(o1, c1).insert(o2 + 1, c2));
}
pub proof fn two_both(rt: T, k: int, ks: Seq<int>, m: int, o1: int, c1: int, o2: int, c2: int)
    requires 0 <= o1 <= m <= o2 <= ks.len(),
    ensures
        ks.take(m).insert(o1, c1) + ks.skip(m).insert(o2 - m, c2) == ks.insert(o1, c1).insert(o2 + 1, c2),
        rt.tot(k, ks.take(m).insert(o1, c1)) == rt.tot(k, ks.take(m)) + rt.len(k, c1),
        rt.tot(k, ks.skip(m).insert(o2 - m, c2)) == rt.tot(k, ks.skip(m)) + rt.len(k, c2),
{
    tot_insert(rt, k, ks.take(m), o1, c1);
    tot_insert(rt, k, ks.skip(m), o2 - m, c2);
    assert(ks.take(m).insert(o1, c1) + ks.skip(m).insert(o2 - m, c2) =~= ks.insert(o1, c1).insert(o2 + 1, c2));
}
/// The first children's lengths.
pub proof fn part<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, j: int)
    requires g.exact(x), 0 <= j <= g.inodes@[x].num_children,
    ensures
        ({
            let n = g.inodes@[x];
            let rt = g.real();
            let k = rt.nd[x].lev - 1;
            let ks = n.kids();
            &&& 0 <= rt.tot(k, ks.take(j)) <= n.tot_len
            &&& rt.tot(k, ks.take(j)) + rt.tot(k, ks.skip(j)) == n.tot_len
            &&& j < ks.len() ==> rt.tot(k, ks.take(j + 1)) == rt.tot(k, ks.take(j)) + rt.len(k, ks[j])
            &&& j < ks.len() ==> rt.len(k, ks[j]) >= 0 && rt.tot(k, ks.take(j + 1)) <= n.tot_len
            &&& k == 0 && j < ks.len() ==> rt.len(k, ks[j]) == g.lnodes@[ks[j]].value.vlen()
            &&& k > 0 && j < ks.len() ==> rt.len(k, ks[j]) == g.inodes@[ks[j]].tot_len
        }),
{
    let n = g.inodes@[x];
    let rt = g.real();
    let k = rt.nd[x].lev - 1;
    let ks = n.kids();
    assert(rt.nd[x] == n.nd());
    assert forall|i: int| 0 <= i < ks.len() implies rt.len(k, #[trigger] ks[i]) >= 0 by {
        if n.has_leaves { assert(g.lnodes@[ks[i]].value.vlen() >= 0); } else { assert(rt.nd[ks[i]] == g.inodes@[ks[i]].nd()); }
    }
    let a = ks.take(j);
    let b = ks.skip(j);
    assert(ks =~= a + b);
    tot_add(rt, k, a, b);
    assert forall|i: int| 0 <= i < a.len() implies rt.len(k, #[trigger] a[i]) >= 0 by { assert(a[i] == ks[i]); }
    assert forall|i: int| 0 <= i < b.len() implies rt.len(k, #[trigger] b[i]) >= 0 by { assert(b[i] == ks[j + i]); }
    tot_nonneg(rt, k, a);
    tot_nonneg(rt, k, b);
    if j < ks.len() {
        tot_at(rt, k, ks, j);
        let c = ks.skip(j + 1);
        assert forall|i: int| 0 <= i < c.len() implies rt.len(k, #[trigger] c[i]) >= 0 by { assert(c[i] == ks[j + 1 + i]); }
        tot_nonneg(rt, k, c);
        if !n.has_leaves { assert(rt.nd[ks[j]] == g.inodes@[ks[j]].nd()); }
    }
}
%file gtree.rs
%impl Inode<ARITY,L>
%fn pushed
%forloops
%sub in internal_idxs =>> in vx_each(internal_idxs)
%sub in leaf_idxs =>> in vx_each(leaf_idxs)
    requires old(gtree).kids_in(*old(self)),
    ensures
        *final(self) == *old(self),
        old(self).has_leaves ==> {
            &&& final(gtree).inodes == old(gtree).inodes
            &&& final(gtree).lnodes@.len() == old(gtree).lnodes@.len()
            &&& forall|c: int| 0 <= c < old(gtree).lnodes@.len() ==> #[trigger] final(gtree).lnodes@[c] == (Lnode { parent: if old(self).kids().contains(c) { to_idx } else { old(gtree).lnodes@[c].parent }, ..old(gtree).lnodes@[c] })
        },
        !old(self).has_leaves ==> {
            &&& final(gtree).lnodes == old(gtree).lnodes
            &&& final(gtree).inodes@.len() == old(gtree).inodes@.len()
            &&& forall|c: int| 0 <= c < old(gtree).inodes@.len() ==> #[trigger] final(gtree).inodes@[c] == (Inode { parent: if old(self).kids().contains(c) { to_idx } else { old(gtree).inodes@[c].parent }, ..old(gtree).inodes@[c] })
        },
        final(gtree).root_idx == old(gtree).root_idx, final(gtree).cursor == old(gtree).cursor, final(gtree).t == old(gtree).t,
%at start
    let ghost g0 = *gtree;
    let ghost ks = self.kids();
%loop 0
    invariant
        !self.has_leaves, *self == *old(self), ks == self.kids(), g0 == *old(gtree), g0.kids_in(*self),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == ks.len(),
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).0 == ks[j],
        gtree.lnodes == g0.lnodes, gtree.inodes@.len() == g0.inodes@.len(),
        gtree.root_idx == g0.root_idx, gtree.cursor == g0.cursor, gtree.t == g0.t,
        forall|c: int| 0 <= c < g0.inodes@.len() ==> #[trigger] gtree.inodes@[c] == (Inode { parent: if ks.take(vx_it.i as int).contains(c) { to_idx } else { g0.inodes@[c].parent }, ..g0.inodes@[c] }),
    ensures vx_it.i == ks.len(),
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    proof { if vx_it.i < ks.len() { take_has(ks, vx_it.i as int); assert(ks[vx_it.i as int] == vx_it.s@[vx_it.i as int].0); } }
%loop 1
    invariant
        self.has_leaves, *self == *old(self), ks == self.kids(), g0 == *old(gtree), g0.kids_in(*self),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == ks.len(),
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == ks[j],
        gtree.inodes == g0.inodes, gtree.lnodes@.len() == g0.lnodes@.len(),
        gtree.root_idx == g0.root_idx, gtree.cursor == g0.cursor, gtree.t == g0.t,
        forall|c: int| 0 <= c < g0.lnodes@.len() ==> #[trigger] gtree.lnodes@[c] == (Lnode { parent: if ks.take(vx_it.i as int).contains(c) { to_idx } else { g0.lnodes@[c].parent }, ..g0.lnodes@[c] }),
    ensures vx_it.i == ks.len(),
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 1
    proof { if vx_it.i < ks.len() { take_has(ks, vx_it.i as int); assert(ks[vx_it.i as int] == vx_it.s@[vx_it.i as int].idx); } }
%at end
    proof { assert(ks.take(ks.len() as int) =~= ks); }
%raw
pub proof fn take_has(s: Seq<int>, i: int)
    requires 0 <= i < s.len(),
    ensures forall|c: int| #[trigger] s.take(i + 1).contains(c) <==> s.take(i).contains(c) || c == s[i],
{
    let a = s.take(i);
    let b = s.take(i + 1);
    assert forall|c: int| #[trigger] b.contains(c) <==> a.contains(c) || c == s[i] by {
        if b.contains(c) {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == c;
            if j < i { assert(a[j] == c); }
        }
        if a.contains(c) {
            let j = choose|j: int| 0 <= j < a.len() && a[j] == c;
            assert(b[j] == c);
        }
        assert(b[i] == s[i]);
    }
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn inode_mut
    requires idx.0 < old(self).inodes@.len(),
    ensures
        *r == old(self).inodes@[idx.0 as int],
        final(self).inodes@ == old(self).inodes@.update(idx.0 as int, *final(r)),
        final(self).lnodes == old(self).lnodes, final(self).root_idx == old(self).root_idx, final(self).cursor == old(self).cursor, final(self).t == old(self).t,
%fn lnode_mut
    requires idx.idx < old(self).lnodes@.len(),
    ensures
        *r == old(self).lnodes@[idx.idx as int],
        final(self).lnodes@ == old(self).lnodes@.update(idx.idx as int, *final(r)),
        final(self).inodes == old(self).inodes, final(self).root_idx == old(self).root_idx, final(self).cursor == old(self).cursor, final(self).t == old(self).t,
%fn root_mut
    requires old(self).root_idx.0 < old(self).inodes@.len(),
    ensures
        *r == old(self).inodes@[old(self).root_idx.0 as int],
        final(self).inodes@ == old(self).inodes@.update(old(self).root_idx.0 as int, *final(r)),
        final(self).lnodes == old(self).lnodes, final(self).root_idx == old(self).root_idx, final(self).cursor == old(self).cursor, final(self).t == old(self).t,
%fn len_offset_of_child
%forloops
%sub in &inode_idxs[..child_offset] =>> in vx_each(&inode_idxs[..child_offset])
%sub in &leaf_idxs[..child_offset] =>> in vx_each(&leaf_idxs[..child_offset])
    requires self.exact(in_inode.0 as int), child_offset <= self.inodes@[in_inode.0 as int].num_children,
    ensures
        r == self.real().tot(self.real().nd[in_inode.0 as int].lev - 1, self.inodes@[in_inode.0 as int].kids().take(child_offset as int)),
        r <= self.inodes@[in_inode.0 as int].tot_len,
%at start
    let ghost x = in_inode.0 as int;
    let ghost rt = self.real();
    let ghost ks = self.inodes@[x].kids();
    let ghost k = rt.nd[x].lev - 1;
    proof { part(*self, x, child_offset as int); assert(ks.take(0) =~= Seq::<int>::empty()); }
%loop 0
    invariant
        self.exact(x), x == in_inode.0, rt == self.real(), ks == self.inodes@[x].kids(), k == rt.nd[x].lev - 1, k > 0,
        child_offset <= ks.len(),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == child_offset,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).0 == ks[j],
        len == rt.tot(k, ks.take(vx_it.i as int)), len <= self.inodes@[x].tot_len,
    ensures vx_it.i == child_offset,
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    proof { if vx_it.i < child_offset { part(*self, x, vx_it.i as int); assert(ks[vx_it.i as int] == vx_it.s@[vx_it.i as int].0); } }
%loop 1
    invariant
        self.exact(x), x == in_inode.0, rt == self.real(), ks == self.inodes@[x].kids(), k == rt.nd[x].lev - 1, k == 0,
        child_offset <= ks.len(),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == child_offset,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == ks[j],
        len == rt.tot(k, ks.take(vx_it.i as int)), len <= self.inodes@[x].tot_len,
    ensures vx_it.i == child_offset,
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 1
    proof { if vx_it.i < child_offset { part(*self, x, vx_it.i as int); assert(ks[vx_it.i as int] == vx_it.s@[vx_it.i as int].idx); } }
%fn split_inode
    requires old(self).exact(inode_idx.0 as int), at_offset <= old(self).inodes@[inode_idx.0 as int].num_children,
    ensures
        ({
            let x = inode_idx.0 as int;
            let n = old(self).inodes@[x];
            let rt = old(self).real();
            let k = rt.nd[x].lev - 1;
            &&& final(self).same_but(*old(self), x)
            &&& final(self).inodes@[x].nd() == (Nd { kids: n.kids().take(at_offset as int), len: rt.tot(k, n.kids().take(at_offset as int)), ..n.nd() })
            &&& r.nd() == (Nd { kids: n.kids().skip(at_offset as int), len: rt.tot(k, n.kids().skip(at_offset as int)), par: nowhere(), ..n.nd() })
            &&& final(self).fits() && r.fits()
            &&& final(self).inodes@[x].num_children == at_offset
            &&& r.num_children == n.num_children - at_offset
            &&& final(self).inodes@[x].tot_len + r.tot_len == n.tot_len
        }),
%at start
    let ghost old_self = *self;
    proof { part(*self, inode_idx.0 as int, at_offset as int); }
%at end
    proof {
        let x = inode_idx.0 as int;
        let n = old_self.inodes@[x];
        assert(self.inodes@[x].kids().len() == at_offset);
        assert(vx_tail.kids().len() == n.num_children - at_offset);
        assert(self.inodes@[x].nd().lev == n.nd().lev);
        assert(self.inodes@[x].nd().par == n.nd().par);
        real_but(*self, old_self, x);
    }
%fn push_leaf
    ensures
        r.idx == old(self).lnodes@.len(),
        final(self).lnodes@ == old(self).lnodes@.push(Lnode { value: leaf, parent }),
        final(self).inodes == old(self).inodes, final(self).root_idx == old(self).root_idx, final(self).cursor == old(self).cursor, final(self).t == old(self).t,
        final(self).real().nd == old(self).real().nd, final(self).real().lpar == old(self).real().lpar.push(parent.0 as int), final(self).real().llen == old(self).real().llen.push(leaf.vlen()),
        final(self).lnodes@.len() < usize::MAX,
%at end
    proof {
        sizes(self.inodes, self.lnodes);
        assert(self.real().lpar =~= old(self).real().lpar.push(parent.0 as int));
        assert(self.real().llen =~= old(self).real().llen.push(leaf.vlen()));
    }
%fn push_inode
    requires old(self).kids_in(inode), old(self).fits(),
    ensures
        r.0 == old(self).inodes@.len(), r.0 as int != nowhere(),
        final(self).real() == pushed(old(self).real(), inode.nd(), parent.0 as int),
        final(self).inodes@.len() == old(self).inodes@.len() + 1, final(self).inodes@.len() < usize::MAX,
        final(self).lnodes@.len() == old(self).lnodes@.len(),
        forall|c: int| 0 <= c < final(self).lnodes@.len() ==> (#[trigger] final(self).lnodes@[c]).value == old(self).lnodes@[c].value,
        final(self).root_idx == old(self).root_idx, final(self).cursor == old(self).cursor, final(self).t == old(self).t,
        final(self).fits(),
        forall|z: int| 0 <= z < old(self).inodes@.len() ==> (#[trigger] final(self).inodes@[z]).kids() == old(self).inodes@[z].kids() && final(self).inodes@[z].has_leaves == old(self).inodes@[z].has_leaves
            && final(self).inodes@[z].tot_len == old(self).inodes@[z].tot_len && final(self).inodes@[z].num_children == old(self).inodes@[z].num_children,
%at start
    proof { sizes(self.inodes, self.lnodes); }
    let ghost inode0 = inode;
    let ghost old_self = *self;
%before inode.pushed
    assert(inode.kids() =~= inode0.kids());
%at end
    proof {
        sizes(self.inodes, self.lnodes);
        let n = inode0.nd();
        let y = old_self.inodes@.len() as int;
        let p = pushed(old_self.real(), n, parent.0 as int);
        assert forall|z: int| 0 <= z < y implies #[trigger] self.real().nd[z] == p.nd[z] by {
            assert(self.real().nd[z] == self.inodes@[z].nd());
            assert(old_self.real().nd[z] == old_self.inodes@[z].nd());
            assert(self.inodes@[z].kids() =~= old_self.inodes@[z].kids());
        }
        assert(self.inodes@[y] == inode);
        assert(self.real().nd[y] == inode.nd());
        assert(self.real().nd[y] == p.nd[y]);
        assert(self.real().nd =~= p.nd);
        assert forall|z: int| 0 <= z < self.inodes@.len() implies (#[trigger] self.inodes@[z]).fits() by {
            if z < y { assert(old_self.inodes@[z].fits()); }
        }
        assert(self.real().lpar =~= p.lpar);
        assert(self.real().llen =~= p.llen);
    }
%fn insert_in_inode
    requires
        old(self).exact(idx.0 as int), at_offset <= old(self).inodes@[idx.0 as int].num_children,
        old(self).inodes@[idx.0 as int].tot_len + child_len <= usize::MAX,
        old(self).real().len(old(self).real().nd[idx.0 as int].lev - 1, child.idx as int) == child_len,
    ensures
        ({
            let x = idx.0 as int;
            let n = old(self).inodes@[x];
            &&& final(self).same_but(*old(self), x)
            &&& joint(old(self).real(), final(self).inodes@[x].nd(), onds(r), n.kids().insert(at_offset as int, child.idx as int), n.tot_len + child_len)
            &&& final(self).fits()
            &&& r is Some ==> r->Some_0.fits()
        }),
%at start
    let ghost old_self = *self;
    let ghost x = idx.0 as int;
    let ghost n = self.inodes@[x];
    let ghost rt = self.real();
    let ghost k = rt.nd[x].lev - 1;
    let ghost c = child.idx as int;
%before let rest = self.split_inode
    proof { same_real(*self, old_self); }
%before let mut rest = self.split_inode
    proof { same_real(*self, old_self); }
%at end
    proof {
        real_but(*self, old_self, x);
        let a = self.inodes@[x].nd();
        if vx_tail is Some {
            assert(a.kids + vx_tail->Some_0.kids() =~= n.kids().insert(at_offset as int, c));
            if at_offset <= ARITY / 2 {
                tot_insert(rt, k, n.kids().take(ARITY as int - ARITY as int / 2), at_offset as int, c);
            } else {
                let m = ARITY as int - ARITY as int / 2 + 1;
                tot_insert(rt, k, n.kids().skip(m), at_offset as int - m, c);
            }
        }
    }
%fn insert_two_in_inode
    requires
        old(self).exact(idx.0 as int), old(self).inodes@[idx.0 as int].has_leaves, first_offset <= second_offset <= old(self).inodes@[idx.0 as int].num_children,
        old(self).inodes@[idx.0 as int].tot_len + first_len + second_len <= usize::MAX,
        old(self).real().len(old(self).real().nd[idx.0 as int].lev - 1, first_child.idx as int) == first_len,
        old(self).real().len(old(self).real().nd[idx.0 as int].lev - 1, second_child.idx as int) == second_len,
    ensures
        ({
            let x = idx.0 as int;
            let n = old(self).inodes@[x];
            &&& final(self).same_but(*old(self), x)
            &&& joint(old(self).real(), final(self).inodes@[x].nd(), onds(r),
                    n.kids().insert(first_offset as int, first_child.idx as int).insert(second_offset + 1, second_child.idx as int), n.tot_len + first_len + second_len)
            &&& final(self).fits()
            &&& r is Some ==> r->Some_0.fits()
            &&& ARITY - n.num_children >= 2 ==> r is None
        }),
    decreases old(self).inodes@[idx.0 as int].num_children,
%at start
    let ghost old_self = *self;
    let ghost x = idx.0 as int;
    let ghost n = self.inodes@[x];
    let ghost rt = self.real();
    let ghost k = rt.nd[x].lev - 1;
    let ghost c1 = first_child.idx as int;
    let ghost c2 = second_child.idx as int;
    let ghost o1 = first_offset as int;
    let ghost o2 = second_offset as int;
%before let rest = self.split_inode
    let ghost m = split_offset as int;
    proof { same_real(*self, old_self); two_left(rt, k, n.kids(), m, o1, c1, o2, c2); }
%after let rest = self.split_inode
    let ghost g1 = *self;
    proof {
        real_but(g1, old_self, x);
        assert(g1.real().nd[x] == g1.inodes@[x].nd());
        assert forall|i: int| 0 <= i < n.kids().take(m).len() implies g1.real().len(k, #[trigger] n.kids().take(m)[i]) == rt.len(k, n.kids().take(m)[i]) by {}
        tot_same(g1.real(), k, rt, k, n.kids().take(m));
        assert forall|j: int| 0 <= j < g1.inodes@[x].num_children implies 0 <= (#[trigger] g1.inodes@[x].kids()[j]) < g1.lnodes@.len() && g1.lnodes@[g1.inodes@[x].kids()[j]].value.vlen() >= 0 by {
            assert(g1.inodes@[x].kids()[j] == n.kids()[j]);
        }
        assert(g1.exact(x));
    }
%before let mut rest = self.split_inode
    let ghost m = split_offset as int + 2;
    proof { same_real(*self, old_self); two_right(rt, k, n.kids(), m, o1, c1, o2, c2); }
%before 1 let mut rest = self.split_inode
    let ghost m = split_offset as int + 1;
    proof { same_real(*self, old_self); two_both(rt, k, n.kids(), m, o1, c1, o2, c2); }
%at end
    proof {
        real_but(*self, old_self, x);
    }
