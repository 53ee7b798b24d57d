// Reading the tree.
%use gtview.vx
%raw
impl T {
    /// The length of the first leaves.
    pub open spec fn pre(self, p: int) -> int { self.tot(0, self.lv[0].take(p)) }
}
/// One level of `pre_down`.
pub proof fn pre_step(t: T, k: int, q: int)
    requires t.shape(), t.lens_ok(), 1 <= k <= t.h(), 0 <= q <= t.lv[k].len(),
    ensures
        t.tot(k, t.lv[k].take(q)) == t.tot(k - 1, t.lv[k - 1].take(t.st(k, q))),
        0 <= t.st(k, q) <= t.lv[k - 1].len(),
{
    unshape(t);
    let up = t.lv[k].take(q);
    assert forall|i: int| 0 <= i < up.len() implies t.nd[#[trigger] up[i]].lev == k && t.off(up[i]) == 0 by {
        assert(up[i] == t.lv[k][i]);
        place_of(t, k, i);
    }
    tot_down(t, k, up);
    flat_take(t.nd, t.lv[k], q);
    assert(t.lv[k - 1].take(t.st(k, q)) =~= flat(t.nd, up));
}
/// The place of an inode's parent.
pub proof fn up<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, k: int, q: int) -> (r: (int, int))
    requires g.sound(), g.t@.inode_at(k, q), k < g.t@.h(),
    ensures
        ({
            let t = g.t@;
            let x = t.lv[k][q];
            let p = t.nd[x].par;
            &&& 0 <= x < g.inodes@.len() && 0 <= p < g.inodes@.len()
            &&& g.inodes@[x].parent.0 == p
            &&& x != g.root_idx.0
            &&& t.inode_at(k + 1, r.0) && t.lv[k + 1][r.0] == p
            &&& t.nd[p].lev == k + 1 && t.nd[x].lev == k
            &&& 0 <= r.1 < t.nd[p].kids.len() && t.nd[p].kids[r.1] == x
            &&& t.st(k + 1, r.0) + r.1 == q
            &&& t.st(k + 1, r.0 + 1) == t.st(k + 1, r.0) + t.nd[p].kids.len()
            &&& forall|j: int| 0 <= j < t.nd[p].kids.len() && t.nd[p].kids[j] == x ==> j == r.1
            &&& forall|j: int| 0 <= j < t.nd[p].kids.len() ==> t.inode_at(k, t.st(k + 1, r.0) + j) && #[trigger] t.nd[p].kids[j] == t.lv[k][t.st(k + 1, r.0) + j]
        }),
{
    let t = g.t@;
    assert(t.shape() && t.all_in() && t.nd.len() == g.inodes@.len()) by { reveal(Gtree::sound); }
    assert(t.at(k, q));
    let r = locate(t, k, q);
    let x = t.lv[k][q];
    let p = t.nd[x].par;
    place_of(t, k, q);
    let w = at_node(g, x);
    let v = at_node(g, p);
    child_place(t, k + 1, r.0, r.1);
    assert forall|j: int| 0 <= j < t.nd[p].kids.len() && t.nd[p].kids[j] == x implies j == r.1 by { no_dup_idx(t.nd[p].kids, j, r.1); }
    assert forall|j: int| 0 <= j < t.nd[p].kids.len() implies t.inode_at(k, t.st(k + 1, r.0) + j) && #[trigger] t.nd[p].kids[j] == t.lv[k][t.st(k + 1, r.0) + j] by { child_place(t, k + 1, r.0, j); }
    r
}
/// The place of an inode's children.
pub proof fn below<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, k: int, q: int, j: int)
    requires g.sound(), g.t@.inode_at(k, q), 0 <= j < g.t@.nd[g.t@.lv[k][q]].kids.len(),
    ensures
        ({
            let t = g.t@;
            let x = t.lv[k][q];
            let c = t.nd[x].kids[j];
            &&& 0 <= x < g.inodes@.len() && t.nd[x].lev == k
            &&& t.at(k - 1, t.st(k, q) + j) && t.lv[k - 1][t.st(k, q) + j] == c
            &&& t.st(k, q + 1) == t.st(k, q) + t.nd[x].kids.len()
            &&& k > 1 ==> 0 <= c < g.inodes@.len() && t.inode_at(k - 1, t.st(k, q) + j)
            &&& k == 1 ==> 0 <= c < g.lnodes@.len()
            &&& t.down(k, q) == t.down(k - 1, t.st(k, q))
            &&& t.down(k, q + 1) == t.down(k - 1, t.st(k, q + 1))
            &&& t.tot(k, t.lv[k].take(q)) == t.tot(k - 1, t.lv[k - 1].take(t.st(k, q)))
            &&& t.tot(k - 1, t.lv[k - 1].take(t.st(k, q) + j)) == t.tot(k - 1, t.lv[k - 1].take(t.st(k, q))) + t.tot(k - 1, t.nd[x].kids.take(j))
        }),
{
    let t = g.t@;
    let x = t.lv[k][q];
    assert(t.shape() && t.lens_ok() && t.nd.len() == g.inodes@.len()) by { reveal(Gtree::sound); }
    place_of(t, k, q);
    let w = at_node(g, x);
    child_place(t, k, q, j);
    pre_step(t, k, q);
    kid_pre(t, k, q, j);
}
/// The root's place.
pub proof fn above<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>)
    requires g.sound(),
    ensures
        g.t@.inode_at(g.t@.h(), 0), g.t@.lv[g.t@.h()][0] == g.root_idx.0, g.t@.lv[g.t@.h()].len() == 1,
        g.t@.down(g.t@.h(), 0) == 0, g.t@.down(g.t@.h(), 1) == g.t@.lv[0].len(), g.t@.lv[0].len() > 0,
        g.root_idx.0 < g.inodes@.len(), g.t@.h() >= 1,
        g.t@.tot(g.t@.h(), g.t@.lv[g.t@.h()].take(0)) == 0,
{
    reveal(Gtree::sound);
    top(g.t@);
    ends(g.t@, g.t@.h());
    ends(g.t@, 0);
}
/// What's before a leaf is no longer than everything.
pub proof fn pre_le<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, k: int, q: int)
    requires g.sound(), 0 <= k <= g.t@.h(), 0 <= q <= g.t@.lv[k].len(),
    ensures 0 <= g.t@.tot(k, g.t@.lv[k].take(q)) <= g.t@.nd[g.t@.root()].len, g.t@.nd[g.t@.root()].len <= usize::MAX,
{
    let t = g.t@;
    at_root(g);
    above(g);
    assert(t.shape() && t.lens_ok() && t.nonneg()) by { reveal(Gtree::sound); }
    pre_mono(t, k, q, t.lv[k].len() as int);
    pre_mono(t, k, 0, q);
    assert(t.lv[k].take(0) =~= Seq::<int>::empty());
    pre_down(t, k, t.lv[k].len() as int);
    ends(t, k);
    assert(t.lv[0].take(t.lv[0].len() as int) =~= t.lv[0]);
    let w = at_node(g, t.root());
    kid_tot(g, t.root(), 0);
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn inode
    requires idx.0 < self.inodes@.len(),
    ensures *r == self.inodes@[idx.0 as int],
%fn lnode
    requires idx.idx < self.lnodes@.len(),
    ensures *r == self.lnodes@[idx.idx as int],
%fn leaf
    requires leaf_idx.idx < self.lnodes@.len(),
    ensures *r == self.lnodes@[leaf_idx.idx as int].value,
%fn root
    requires self.root_idx.0 < self.inodes@.len(),
    ensures *r == self.inodes@[self.root_idx.0 as int],
%fn is_root
    ensures r == (idx.0 == self.root_idx.0),
%fn len
    requires self.root_idx.0 < self.inodes@.len(),
    ensures
        r == self.inodes@[self.root_idx.0 as int].tot_len,
        self.sound() ==> r == self.t@.nd[self.t@.root()].len && r == vsum(self.leaves(), self.leaves().len() as int),
%at start
    proof { if self.sound() { at_root(*self); let w = at_node(*self, self.t@.root()); leaf_facts(*self); } }
%fn child_at_offset
%forloops
%sub in inode_idxs.iter().enumerate() =>> in vx_enum(inode_idxs)
%sub in leaf_idxs.iter().enumerate() =>> in vx_enum(leaf_idxs)
    requires self.sound(), of_inode.0 < self.inodes@.len(), at_offset <= self.t@.nd[of_inode.0 as int].len,
    ensures
        ({
            let n = self.t@.nd[of_inode.0 as int];
            &&& 0 <= r.0 < n.kids.len()
            &&& r.1 == self.t@.tot(n.lev - 1, n.kids.take(r.0 as int))
            &&& at_offset <= self.t@.tot(n.lev - 1, n.kids.take(r.0 + 1))
            &&& r.0 > 0 ==> r.1 < at_offset
            &&& r.0 == 0 ==> r.1 == 0
        }),
%at start
    let ghost x = of_inode.0 as int;
    let ghost t = self.t@;
    let ghost ks = t.nd[x].kids;
    let ghost k = t.nd[x].lev - 1;
    proof { let w = at_node(*self, x); assert(ks.take(0) =~= Seq::<int>::empty()); }
%loop 0
    invariant
        self.sound(), of_inode.0 < self.inodes@.len(), at_offset <= self.t@.nd[of_inode.0 as int].len,
        x == of_inode.0, t == self.t@, ks == t.nd[x].kids, k == t.nd[x].lev - 1, k > 0,
        ks.take(0) == Seq::<int>::empty(),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == ks.len(), ks.len() > 0,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).0 == ks[j] && ks[j] < self.inodes@.len(),
        offset == t.tot(k, ks.take(vx_it.i as int)),
        vx_it.i > 0 ==> offset < at_offset,
    ensures vx_it.i == vx_it.s@.len(),
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    proof { kid_tot(*self, x, if vx_it.i < ks.len() { vx_it.i as int } else { ks.len() - 1 }); }
%loop 1
    invariant
        self.sound(), of_inode.0 < self.inodes@.len(), at_offset <= self.t@.nd[of_inode.0 as int].len,
        x == of_inode.0, t == self.t@, ks == t.nd[x].kids, k == t.nd[x].lev - 1, k == 0,
        ks.take(0) == Seq::<int>::empty(),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == ks.len(), ks.len() > 0,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == ks[j] && ks[j] < self.lnodes@.len(),
        offset == t.tot(k, ks.take(vx_it.i as int)),
        vx_it.i > 0 ==> offset < at_offset,
    ensures vx_it.i == vx_it.s@.len(),
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 1
    proof { kid_tot(*self, x, if vx_it.i < ks.len() { vx_it.i as int } else { ks.len() - 1 }); }
%before 1 vx_panic()
    proof { kid_tot(*self, x, ks.len() - 1); assert(ks.take(ks.len() as int) =~= ks); }
%fn first_leaf_idx
    requires self.sound(),
    ensures self.t@.lv[0].len() > 0, r.idx == self.t@.lv[0][0],
%at start
    let ghost mut k = self.t@.h();
    let ghost mut q = 0int;
    proof { above(*self); }
%loop 0
    invariant
        self.sound(), self.t@.inode_at(k, q), self.t@.lv[k][q] == idx.0, self.t@.down(k, q) == 0, idx.0 < self.inodes@.len(),
        self.t@.lv[0].len() > 0,
    decreases k,
%at loopstart 0
    proof { let w = at_node(*self, idx.0 as int); below(*self, k, q, 0); }
%after idx = children[0]
    proof { q = self.t@.st(k, q); k = k - 1; }
%fn last_leaf
    requires self.sound(),
    ensures
        self.t@.lv[0].len() > 0, r.0.idx == self.t@.lv[0].last(),
        self.t@.kid_at(r.0.idx as int, r.1 as int),
%at start
    let ghost mut k = self.t@.h();
    let ghost mut q = 0int;
    proof { above(*self); }
%loop 0
    invariant
        self.sound(), self.t@.inode_at(k, q), self.t@.lv[k][q] == inode_idx.0, self.t@.down(k, q + 1) == self.t@.lv[0].len(), inode_idx.0 < self.inodes@.len(),
        self.t@.lv[0].len() > 0,
    decreases k,
%at loopstart 0
    proof { let w = at_node(*self, inode_idx.0 as int); below(*self, k, q, self.t@.nd[inode_idx.0 as int].kids.len() - 1); }
%after inode_idx = inode_idxs
    proof { q = self.t@.st(k, q + 1) - 1; k = k - 1; }
%before return (leaf_idxs
    proof {
        let w = at_leaf(*self, self.t@.lv[0].len() - 1);
    }
%fn idx_of_leaf_in_parent
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures self.t@.kid_at(leaf_idx.idx as int, r as int),
%at start
    proof {
        let p = self.t@.pos(leaf_idx.idx as int);
        let w = at_leaf(*self, p);
        let x = self.t@.lpar[leaf_idx.idx as int];
        let v = at_node(*self, x);
        assert(self.inodes@[x].kids()[w.1] == leaf_idx.idx);
    }
%fn idx_of_inode_in_parent
    requires self.sound(), inode_idx.0 < self.inodes@.len(), inode_idx.0 != self.root_idx.0,
    ensures
        ({
            let p = self.t@.nd[inode_idx.0 as int].par;
            0 <= p < self.inodes@.len() && r < self.t@.nd[p].kids.len() && self.t@.nd[p].kids[r as int] == inode_idx.0
        }),
%at start
    proof {
        let w = at_node(*self, inode_idx.0 as int);
        let u = up(*self, w.0, w.1);
        let p = self.t@.nd[inode_idx.0 as int].par;
        let v = at_node(*self, p);
        assert(self.inodes@[p].kids()[u.1] == inode_idx.0);
    }
%fn offset_of_leaf_child
%forloops
%sub in siblings =>> in vx_each(siblings)
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures forall|j: int| self.t@.kid_at(leaf_idx.idx as int, j) ==> r == self.t@.tot(0, self.t@.nd[self.t@.lpar[leaf_idx.idx as int]].kids.take(j)),
%at start
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost x = t.lpar[c];
    let ghost ks = t.nd[x].kids;
    let ghost place = at_leaf(*self, t.pos(c));
    proof {
        let v = at_node(*self, x);
        assert(ks.take(0) =~= Seq::<int>::empty());
    }
%loop 0
    invariant
        self.sound(), t == self.t@, c == leaf_idx.idx, x == t.lpar[c], ks == t.nd[x].kids, 0 <= x < self.inodes@.len(), t.nd[x].lev == 1,
        forall|j: int| self.t@.kid_at(c, j) <==> j == place.1,
        0 <= place.1 < ks.len(), ks[place.1] == c,
        ks.take(0) == Seq::<int>::empty(),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == ks.len(), ks.len() > 0,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == ks[j] && ks[j] < self.lnodes@.len(),
        offset == t.tot(0, ks.take(vx_it.i as int)),
        vx_it.i <= place.1,
    ensures false,
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    let ghost i0 = vx_it.i as int;
    proof { kid_tot(*self, x, if vx_it.i < ks.len() { vx_it.i as int } else { ks.len() - 1 }); }
%after let idx = *idx
    assert(self.t@.kid_at(c, i0) <==> idx.idx == c);
%fn offset_of_internal_child
%forloops
%sub in siblings =>> in vx_each(siblings)
    requires self.sound(), inode_idx.0 < self.inodes@.len(), inode_idx.0 != self.root_idx.0,
    ensures
        ({
            let p = self.t@.nd[inode_idx.0 as int];
            let u = self.t@.nd[p.par];
            forall|j: int| 0 <= j < u.kids.len() && u.kids[j] == inode_idx.0 ==> r == self.t@.tot(p.lev, #[trigger] u.kids.take(j))
        }),
%at start
    let ghost t = self.t@;
    let ghost c = inode_idx.0 as int;
    let ghost x = t.nd[c].par;
    let ghost ks = t.nd[x].kids;
    let ghost w = at_node(*self, c);
    let ghost u = up(*self, w.0, w.1);
    proof {
        let v = at_node(*self, x);
        assert(ks.take(0) =~= Seq::<int>::empty());
    }
%loop 0
    invariant
        self.sound(), t == self.t@, c == inode_idx.0, x == t.nd[c].par, ks == t.nd[x].kids, 0 <= x < self.inodes@.len(), t.nd[x].lev == w.0 + 1, w.0 >= 1,
        t.nd[c].lev == w.0,
        forall|j: int| 0 <= j < ks.len() && ks[j] == c ==> j == u.1,
        0 <= u.1 < ks.len(), ks[u.1] == c,
        ks.take(0) == Seq::<int>::empty(),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == ks.len(), ks.len() > 0,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).0 == ks[j] && ks[j] < self.inodes@.len(),
        offset == t.tot(w.0, ks.take(vx_it.i as int)),
        vx_it.i <= u.1,
    ensures false,
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    proof { kid_tot(*self, x, if vx_it.i < ks.len() { vx_it.i as int } else { ks.len() - 1 }); }
%fn offset_of_leaf
    requires self.wf(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures r == self.t@.pre(self.t@.pos(leaf_idx.idx as int)),
%at start
    let ghost t = self.t@;
    let ghost p = t.pos(leaf_idx.idx as int);
    let ghost place = at_leaf(*self, p);
    let ghost mut k = 1int;
    let ghost mut q = place.0;
    proof {
        above(*self);
        below(*self, 1, place.0, place.1);
        pre_le(*self, 0, p);
        pre_le(*self, 1, place.0);
        unshape_st(t, place.0);
        assert(t.kid_at(leaf_idx.idx as int, place.1));
    }
%loop 0
    invariant
        self.sound(), t == self.t@, t.inode_at(k, q), t.lv[k][q] == inode_idx.0, inode_idx.0 < self.inodes@.len(),
        0 <= p < t.lv[0].len(),
        p == t.pos(leaf_idx.idx as int),
        offset + t.tot(k, t.lv[k].take(q)) == t.pre(p),
    decreases t.h() - k,
%at loopstart 0
    let ghost w = at_node(*self, inode_idx.0 as int);
    proof {
        one_at(*self, k, q, w.0, w.1);
        let u = up(*self, k, q);
        below(*self, k + 1, u.0, u.1);
        pre_le(*self, k + 1, u.0);
        pre_le(*self, 0, p);
        pre_le(*self, k, q);
    }
    let ghost off0 = offset;
    let ghost x0 = inode_idx.0 as int;
%at loopend 0
    proof {
        let u = up(*self, k, q);
        below(*self, k + 1, u.0, u.1);
        let par = t.nd[x0].par;
        assert(t.nd[par].kids[u.1] == x0);
        assert(offset == off0 + t.tot(k, t.nd[par].kids.take(u.1)));
        q = u.0;
        k = k + 1;
    }
%at end
    proof {
        above(*self);
        let w = at_node(*self, inode_idx.0 as int);
        one_at(*self, k, q, w.0, w.1);
    }
%fn next_leaf
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures
        match r {
            Some(n) => self.t@.pos(leaf_idx.idx as int) + 1 < self.t@.lv[0].len() && n.idx == self.t@.lv[0][self.t@.pos(leaf_idx.idx as int) + 1],
            None => self.t@.pos(leaf_idx.idx as int) + 1 == self.t@.lv[0].len(),
        },
%at start
    let ghost t = self.t@;
    let ghost p = t.pos(leaf_idx.idx as int);
    let ghost place = at_leaf(*self, p);
    let ghost mut k = 1int;
    let ghost mut q = place.0;
    proof {
        let v = at_node(*self, t.lpar[leaf_idx.idx as int]);
        above(*self);
        below(*self, 1, place.0, place.1);
        if place.1 + 1 < t.nd[t.lpar[leaf_idx.idx as int]].kids.len() { below(*self, 1, place.0, place.1 + 1); }
        unshape_st(t, place.0);
        unshape_st(t, place.0 + 1);
    }
%loop 0
    invariant_except_break
        t.down(k, q + 1) == p + 1,
    invariant
        self.sound(), t == self.t@, t.inode_at(k, q), t.lv[k][q] == inode_idx.0, inode_idx.0 < self.inodes@.len(),
        p == t.pos(leaf_idx.idx as int), 0 <= p < t.lv[0].len(),
    ensures t.down(k, q) == p + 1,
    decreases t.h() - k,
%at loopstart 0
    let ghost w = at_node(*self, inode_idx.0 as int);
    proof {
        above(*self);
        one_at(*self, k, q, w.0, w.1);
        if k < t.h() {
            let u = up(*self, k, q);
            below(*self, k + 1, u.0, u.1);
            let v = at_node(*self, t.nd[inode_idx.0 as int].par);
            if u.1 + 1 < t.nd[t.nd[inode_idx.0 as int].par].kids.len() { below(*self, k + 1, u.0, u.1 + 1); }
        }
    }
%after inode_idx = parent.child
    proof { q = q + 1; }
%after inode_idx = parent_idx
    proof { let u = up(*self, k, q); q = u.0; k = k + 1; }
%loop 1
    invariant
        self.sound(), t == self.t@, t.inode_at(k, q), t.lv[k][q] == inode_idx.0, inode_idx.0 < self.inodes@.len(),
        p == t.pos(leaf_idx.idx as int), 0 <= p < t.lv[0].len(),
        t.down(k, q) == p + 1,
    decreases k,
%at loopstart 1
    let ghost w = at_node(*self, inode_idx.0 as int);
    proof {
        one_at(*self, k, q, w.0, w.1);
        below(*self, k, q, 0);
    }
%after inode_idx = inode_idxs
    proof { q = t.st(k, q); k = k - 1; }
%fn prev_leaf
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures
        match r {
            Some(n) => self.t@.pos(leaf_idx.idx as int) > 0 && n.idx == self.t@.lv[0][self.t@.pos(leaf_idx.idx as int) - 1],
            None => self.t@.pos(leaf_idx.idx as int) == 0,
        },
%at start
    let ghost t = self.t@;
    let ghost p = t.pos(leaf_idx.idx as int);
    let ghost place = at_leaf(*self, p);
    let ghost mut k = 1int;
    let ghost mut q = place.0;
    proof {
        let v = at_node(*self, t.lpar[leaf_idx.idx as int]);
        above(*self);
        below(*self, 1, place.0, place.1);
        if place.1 > 0 { below(*self, 1, place.0, place.1 - 1); }
        unshape_st(t, place.0);
    }
%loop 0
    invariant_except_break
        t.down(k, q) == p,
    invariant
        self.sound(), t == self.t@, t.inode_at(k, q), t.lv[k][q] == inode_idx.0, inode_idx.0 < self.inodes@.len(),
        p == t.pos(leaf_idx.idx as int), 0 <= p < t.lv[0].len(),
    ensures t.down(k, q + 1) == p,
    decreases t.h() - k,
%at loopstart 0
    let ghost w = at_node(*self, inode_idx.0 as int);
    proof {
        above(*self);
        one_at(*self, k, q, w.0, w.1);
        if k < t.h() {
            let u = up(*self, k, q);
            below(*self, k + 1, u.0, u.1);
            let v = at_node(*self, t.nd[inode_idx.0 as int].par);
            if u.1 > 0 { below(*self, k + 1, u.0, u.1 - 1); }
        }
    }
%after inode_idx = parent.child
    proof { q = q - 1; }
%after inode_idx = parent_idx
    proof { let u = up(*self, k, q); q = u.0; k = k + 1; }
%loop 1
    invariant
        self.sound(), t == self.t@, t.inode_at(k, q), t.lv[k][q] == inode_idx.0, inode_idx.0 < self.inodes@.len(),
        p == t.pos(leaf_idx.idx as int), 0 <= p < t.lv[0].len(),
        t.down(k, q + 1) == p,
    decreases k,
%at loopstart 1
    let ghost w = at_node(*self, inode_idx.0 as int);
    proof {
        one_at(*self, k, q, w.0, w.1);
        below(*self, k, q, t.nd[inode_idx.0 as int].kids.len() - 1);
    }
%after inode_idx = inode_idxs
    proof { q = t.st(k, q + 1) - 1; k = k - 1; }
%fn leaf_at_offset
    requires self.wf(), offset <= self.t@.nd[self.t@.root()].len,
    ensures
        self.t@.leaf_in(r.0.idx as int),
        ({
            let p = self.t@.pos(r.0.idx as int);
            &&& r.1 == self.t@.pre(p)
            &&& offset <= self.t@.pre(p + 1)
            &&& self.t@.pre(p) < offset || (offset == 0 && p == 0)
        }),
%at start
    let ghost t = self.t@;
    let ghost mut k = t.h();
    let ghost mut q = 0int;
    proof {
        above(*self);
        at_root(*self);
        if let Some(c) = self.cursor {
            let p = t.pos(c.leaf_idx.idx as int);
            let w = at_leaf(*self, p);
            tot_at(t, 0, t.lv[0], p);
            pre_le(*self, 0, p + 1);
        }
    }
%loop 0
    invariant
        self.sound(), t == self.t@, t.inode_at(k, q), t.lv[k][q] == idx.0, idx.0 < self.inodes@.len(),
        leaf_offset == t.tot(k, t.lv[k].take(q)),
        leaf_offset <= offset <= leaf_offset + t.nd[idx.0 as int].len,
        leaf_offset < offset || (offset == 0 && q == 0),
    decreases k,
%at loopstart 0
    let ghost w = at_node(*self, idx.0 as int);
    let ghost off0 = leaf_offset;
    proof { one_at(*self, k, q, w.0, w.1); }
%after leaf_offset += child_offset
    proof {
        below(*self, k, q, child_idx as int);
        kid_tot(*self, idx.0 as int, child_idx as int);
        if q == 0 { assert(t.lv[k].take(0) =~= Seq::<int>::empty()); }
    }
%before let (child_idx, child_offset)
    proof { at_root(*self); }
%before return (leaf_idx, leaf_offset)
    proof {
        let p = t.st(1, q) + child_idx;
        let w = at_leaf(*self, p);
        tot_at(t, 0, t.lv[0], p);
    }
%after idx = inode_idx
    proof { q = t.st(k, q) + child_idx; k = k - 1; }
%fn remove_cursor
    requires old(self).sound(),
    ensures final(self).wf(), final(self).t == old(self).t, final(self).lnodes == old(self).lnodes, final(self).inodes == old(self).inodes, final(self).root_idx == old(self).root_idx,
%at end
    proof { reveal(Gtree::sound); }
%raw
pub proof fn unshape_st(t: T, q: int)
    ensures t.down(1, q) == t.st(1, q),
{
    assert(t.down(0, t.st(1, q)) == t.st(1, q));
}
pub proof fn one_at<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, k: int, q: int, k2: int, q2: int)
    requires g.sound(), g.t@.inode_at(k, q), g.t@.inode_at(k2, q2), g.t@.lv[k][q] == g.t@.lv[k2][q2],
    ensures k == k2, q == q2,
{
    reveal(Gtree::sound);
    place_of(g.t@, k, q);
    place_of(g.t@, k2, q2);
    assert(g.t@.at(k, q) && g.t@.at(k2, q2));
    one_place(g.t@, k, q, q2);
}
