// What's been split off an inode, on its way up the tree.
%use gtwrite.vx
%raw
/// One that's been split and isn't the root.
pub open spec fn can_bub<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>, d: int) -> bool {
    &&& g.midg(x, Some(n))
    &&& g.t@.nd[x].par != nowhere()
    &&& owes(g.t@, g.t@.nd[x].par, d)
    &&& g.t@.nd[g.t@.root()].len + d <= usize::MAX
}
pub proof fn midg_parts<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>)
    requires g.midg(x, s),
    ensures
        0 <= x < g.inodes@.len(), g.inodes@.len() == g.t@.nd.len(), g.lnodes@.len() == g.t@.llen.len(),
        g.inodes@[x].parent.0 == g.t@.nd[x].par,
        g.t@.nd[x].par == nowhere() <==> x == g.t@.root(),
        g.t@.nd[x].par != nowhere() ==> 0 <= g.t@.nd[x].par < g.inodes@.len(),
        g.root_idx.0 == g.t@.root(), g.t@.shape(), g.t@.all_in(), g.t@.nonneg(), g.fits(), 0 <= g.t@.root() < g.inodes@.len(),
        s is None ==> g.almost(),
{
    reveal(Gtree::midg);
    let t = g.t@;
    let rt = g.real();
    mid_kids(t, rt, x, onds(s));
    assert(rt.nd[x] == g.inodes@[x].nd());
    assert(rt.llen.len() == g.lnodes@.len());
    let w = where_is(t, x);
    not_top(t, w.0, w.1);
    top(t);
    if t.nd[x].par != nowhere() { let a = above_it(t, x); }
    if s is None {
        mid_none(t, rt, x);
        assert(g.almost()) by {
            reveal(Gtree::almost);
            assert forall|z: int| 0 <= z < t.nd.len() implies like(rt.nd[z], #[trigger] t.nd[z]) by {}
        }
    }
}
pub proof fn pos_in(t: T, c: int)
    requires t.shape(), t.all_in(), t.leaf_in(c),
    ensures 0 <= t.lpar[c] < t.nd.len(), t.nd[t.lpar[c]].lev == 1, 0 <= c < t.lpar.len(), t.lpar.len() == t.llen.len(),
{
    unshape(t);
    assert(t.lv[0][t.pos(c)] == c);
    assert(t.at(0, t.pos(c)));
    let r = locate(t, 0, t.pos(c));
}
/// Before what's been split off becomes part of the tree.
pub proof fn bub_before<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>, d: int) -> (j: int)
    requires can_bub(g, x, n, d),
    ensures
        ({
            let t = g.t@;
            let p = t.nd[x].par;
            &&& 0 <= p < g.inodes@.len() && p != x
            &&& g.kids_in(n)
            &&& g.inodes@[p].tot_len == t.nd[p].len && !g.inodes@[p].has_leaves && g.inodes@[p].kids() == t.nd[p].kids && g.inodes@[p].parent.0 == t.nd[p].par
            &&& g.inodes@[p].fits()
            &&& 0 <= j < t.nd[p].kids.len() && t.nd[p].kids[j] == x
            &&& forall|i: int| 0 <= i < t.nd[p].kids.len() && t.nd[p].kids[i] == x ==> i == j
            &&& no_dup(t.nd[p].kids)
            &&& forall|i: int| 0 <= i < t.nd[p].kids.len() ==> 0 <= (#[trigger] t.nd[p].kids[i]) < t.nd.len() && t.nd[p].kids[i] != p
            &&& 0 <= t.nd[p].len + d - n.tot_len
            &&& t.nd[p].len + d <= usize::MAX
        }),
{
    reveal(Gtree::midg);
    let t = g.t@;
    let rt = g.real();
    let p = t.nd[x].par;
    midg_parts(g, x, Some(n));
    mid_kids(t, rt, x, Some(n.nd()));
    mid_exact(t, rt, x, n.nd(), d, rt);
    let a = above_it(t, x);
    owed(t, p, d);
    assert(rt.nd[x] == g.inodes@[x].nd());
    assert(rt.nd[p] == g.inodes@[p].nd());
    assert forall|j: int| 0 <= j < n.num_children implies #[trigger] n.kids()[j] == t.nd[x].kids[rt.nd[x].kids.len() + j] by {}
    if n.has_leaves {
        assert forall|j: int| 0 <= j < n.num_children implies 0 <= (#[trigger] n.kids()[j]) < g.lnodes@.len() && g.lnodes@[n.kids()[j]].value.vlen() >= 0 by {
            assert(rt.llen[n.kids()[j]] == g.lnodes@[n.kids()[j]].value.vlen());
        }
    }
    a.3
}
/// It's been pushed; its parent has the length it has without it.
pub open spec fn bubbled<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>, d: int, g2: Gtree<ARITY, L>) -> bool {
    let p = g.t@.nd[x].par;
    let r = pushed(g.real(), n.nd(), p);
    &&& g2.real().nd == r.nd.update(p, Nd { len: g.t@.nd[p].len + d - n.tot_len, ..r.nd[p] })
    &&& g2.real().lpar == r.lpar && g2.real().llen == r.llen
    &&& g2.fits() && g2.root_idx == g.root_idx && g2.inodes@.len() == r.nd.len()
}
pub proof fn bub_exact<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>, d: int, g2: Gtree<ARITY, L>)
    requires
        can_bub(g, x, n, d),
        bubbled(g, x, n, d, g2),
    ensures
        g2.exact(g.t@.nd[x].par),
        g2.inodes@[g.t@.nd[x].par].kids() == g.t@.nd[g.t@.nd[x].par].kids,
        g2.real().len(g2.real().nd[g.t@.nd[x].par].lev - 1, g.t@.nd.len() as int) == n.tot_len,
{
    let t = g.t@;
    let rt = g.real();
    let p = t.nd[x].par;
    let j = bub_before(g, x, n, d);
    midg_parts(g, x, Some(n));
    assert(mid(t, rt, x, Some(n.nd()))) by { reveal(Gtree::midg); }
    let y = t.nd.len() as int;
    let r = pushed(rt, n.nd(), p);
    assert(r.nd.len() == y + 1);
    assert(g2.real().nd.len() == y + 1 && g2.inodes@.len() == y + 1);
    assert(g2.real().nd[p] == g2.inodes@[p].nd());
    assert(g2.inodes@[p].kids() == g2.inodes@[p].nd().kids);
    assert(g2.real().nd[y].len == n.tot_len);
    assert(rt.nd[p] == g.inodes@[p].nd());
    mid_exact(t, rt, x, n.nd(), d, g2.real());
}
pub proof fn bub_step<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>, d: int, g2: Gtree<ARITY, L>, g3: Gtree<ARITY, L>, rest: Option<Inode<ARITY, L>>, j: int) -> (t2: T)
    requires
        can_bub(g, x, n, d), g.t@.nd.len() < nowhere(),
        bubbled(g, x, n, d, g2),
        g3.same_but(g2, g.t@.nd[x].par), g3.fits(), rest is Some ==> rest->Some_0.fits(),
        0 <= j < g.t@.nd[g.t@.nd[x].par].kids.len(), g.t@.nd[g.t@.nd[x].par].kids[j] == x,
        joint(g2.real(), g3.inodes@[g.t@.nd[x].par].nd(), onds(rest), g.t@.nd[g.t@.nd[x].par].kids.insert(j + 1, g.t@.nd.len() as int), g.t@.nd[g.t@.nd[x].par].len + d),
    ensures
        mid(t2, g3.real(), g.t@.nd[x].par, onds(rest)),
        g3.root_idx.0 == t2.root(),
        owes(t2, t2.nd[g.t@.nd[x].par].par, d),
        step_like(g.t@, t2, g.t@.nd[x].par, d),
        t2.nd[t2.root()].len + (if t2.nd[g.t@.nd[x].par].par == nowhere() { 0 } else { d }) <= usize::MAX,
        forall|c: int, i: int| g.t@.leaf_in(c) && #[trigger] kid_mid(g.t@, g.real(), x, Some(n.nd()), c, i) ==> kid_mid(t2, g3.real(), g.t@.nd[x].par, onds(rest), c, i),
{
    let t = g.t@;
    let rt = g.real();
    let p = t.nd[x].par;
    let y = t.nd.len() as int;
    let j2 = bub_before(g, x, n, d);
    midg_parts(g, x, Some(n));
    bub_exact(g, x, n, d, g2);
    assert(mid(t, rt, x, Some(n.nd()))) by { reveal(Gtree::midg); }
    assert(g.root_idx.0 == t.root()) by { reveal(Gtree::midg); }
    let r1 = pushed(rt, n.nd(), p);
    assert(rt.nd.len() == y);
    assert(r1.nd.len() == y + 1);
    assert(g2.real().nd == r1.nd.update(p, Nd { len: g.t@.nd[p].len + d - n.tot_len, ..r1.nd[p] }));
    assert(g2.real().nd.len() == y + 1 && g2.inodes@.len() == y + 1);
    real_but(g3, g2, p);
    assert(g2.real().nd[p] == g2.inodes@[p].nd() && g3.real().nd[p] == g3.inodes@[p].nd());
    let ks = t.nd[p].kids.insert(j + 1, y);
    assert forall|i: int| 0 <= i < ks.len() implies 0 <= (#[trigger] ks[i]) < y + 1 && ks[i] != p by {
        if i <= j { assert(ks[i] == t.nd[p].kids[i]); } else if i > j + 1 { assert(ks[i] == t.nd[p].kids[i - 1]); }
    }
    joint_same(g2.real(), g3.real(), g3.inodes@[p].nd(), onds(rest), ks, t.nd[p].len + d);
    assert(rt.nd[p].kids == t.nd[p].kids) by { assert(rt.nd[p] == g.inodes@[p].nd()); }
    assert(r1.nd[p].par == rt.nd[p].par) by {
        if n.nd().lev != 1 && n.nd().kids.contains(p) {
            let i = choose|i: int| 0 <= i < n.nd().kids.len() && n.nd().kids[i] == p;
            mid_kids(t, rt, x, Some(n.nd()));
            let a = above_it(t, x);
            assert(t.nd[x].kids[rt.nd[x].kids.len() + i] == p);
        }
    }
    assert(g2.inodes@[p].nd().par == g2.inodes@[p].parent.0 && g3.inodes@[p].nd().par == g3.inodes@[p].parent.0);
    assert(g3.real().nd[p].par == rt.nd[p].par);
    assert(g3.real().nd[p].lev == rt.nd[p].lev);
    let t2 = mid_step(t, rt, x, n.nd(), d, g3.real(), onds(rest), j);
    let w = where_is(t, p);
    not_top(t, w.0, w.1);
    top(t);
    t2
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn bubble
%attr #[verifier::loop_isolation(false)]
    requires
        old(self).midg(inode_idx.0 as int, maybe_split),
        owes(old(self).t@, old(self).t@.nd[inode_idx.0 as int].par, <Length as LengthExt>::dnum(leaf_diff)),
        maybe_split is Some ==> <Length as LengthExt>::dnum(diff) + maybe_split->Some_0.tot_len == <Length as LengthExt>::dnum(leaf_diff),
        old(self).t@.nd[old(self).t@.root()].len + (if old(self).t@.nd[inode_idx.0 as int].par == nowhere() { 0 } else { <Length as LengthExt>::dnum(leaf_diff) }) <= usize::MAX,
    ensures
        final(self).sound(), final(self).leaves_kept(*old(self)),
        final(self).inodes@.len() >= old(self).inodes@.len(),
        final(self).inodes@[inode_idx.0 as int].num_children == old(self).inodes@[inode_idx.0 as int].num_children,
        forall|c: int, i: int| old(self).t@.leaf_in(c) && #[trigger] kid_mid(old(self).t@, old(self).real(), inode_idx.0 as int, onds(maybe_split), c, i) ==> final(self).t@.kid_at(c, i),
%at start
    let ghost d = <Length as LengthExt>::dnum(leaf_diff);
    let ghost g0 = *self;
    let ghost x0 = inode_idx.0 as int;
    let ghost s0 = maybe_split;
    proof { midg_parts(*self, inode_idx.0 as int, maybe_split); }
%loop 0
    invariant
        g0 == *old(self), d == <Length as LengthExt>::dnum(leaf_diff),
        self.midg(inode_idx.0 as int, maybe_split),
        inode_idx.0 < self.inodes@.len(), parent_idx.0 == self.t@.nd[inode_idx.0 as int].par,
        owes(self.t@, self.t@.nd[inode_idx.0 as int].par, d),
        maybe_split is Some ==> <Length as LengthExt>::dnum(diff) + maybe_split->Some_0.tot_len == d,
        self.t@.nd[self.t@.root()].len + (if self.t@.nd[inode_idx.0 as int].par == nowhere() { 0 } else { d }) <= usize::MAX,
        self.leaves_kept(g0),
        self.inodes@.len() >= g0.inodes@.len(), 0 <= x0 < g0.inodes@.len(),
        self.inodes@[x0].num_children == g0.inodes@[x0].num_children,
        self.t@.nd[x0].lev <= self.t@.nd[inode_idx.0 as int].lev,
        forall|c: int, i: int| g0.t@.leaf_in(c) && #[trigger] kid_mid(g0.t@, g0.real(), x0, onds(s0), c, i) ==> kid_mid(self.t@, self.real(), inode_idx.0 as int, onds(maybe_split), c, i),
    decreases self.t@.h() - self.t@.nd[inode_idx.0 as int].lev,
%at loopstart 0
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost x = inode_idx.0 as int;
    let ghost p = parent_idx.0 as int;
    let ghost ms = maybe_split;
    proof {
        midg_parts(g, x, maybe_split);
        if maybe_split is None {
            assert forall|c: int, i: int| g0.t@.leaf_in(c) && #[trigger] kid_mid(g0.t@, g0.real(), x0, onds(s0), c, i) implies t.kid_at(c, i) by {
                reveal(Gtree::midg);
                mid_none(t, g.real(), x);
                assert(t.leaf_in(c));
            }
            if p == nowhere() { almost_parts(*self); almost_sound(*self, nowhere(), d); }
        } else if p != nowhere() {
            let j = bub_before(g, x, maybe_split->Some_0, d);
            let a = above_it(t, x);
        }
    }
%before let split_idx
    let ghost n = split;
%before let parent = self.inode_mut
    let ghost g1 = *self;
%after parent.len_mut().patch
    proof {
        assert(parent.kids() =~= g1.inodes@[p].kids());
        assert(g1.inodes@[p].kids() == t.nd[p].kids);
    }
%before maybe_split = self.insert_in_inode
    let ghost g2 = *self;
    proof {
        real_but(g2, g1, p);
        assert(bubbled(g, x, n, d, g2));
        bub_exact(g, x, n, d, g2);
    }
%after maybe_split = self.insert_in_inode
    let ghost rest = maybe_split;
    proof {
        let t2 = bub_step(g, x, n, d, g2, *self, rest, idx_in_parent as int);
        self.t@ = t2;
        assert(self.midg(p, rest)) by { reveal(Gtree::midg); }
    }
%at loopend 0
    proof {
        midg_parts(*self, p, maybe_split);
    }
%before return
    proof {
        assert forall|c: int, i: int| g0.t@.leaf_in(c) && #[trigger] kid_mid(g0.t@, g0.real(), x0, onds(s0), c, i) implies self.t@.kid_at(c, i) by {
            assert(t.leaf_in(c));
            assert(kid_mid(t, g.real(), x, onds(ms), c, i));
        }
    }
%before 1 return
    proof {
        assert forall|c: int, i: int| g0.t@.leaf_in(c) && #[trigger] kid_mid(g0.t@, g0.real(), x0, onds(s0), c, i) implies self.t@.kid_at(c, i) by {
            assert(t.leaf_in(c));
            assert(kid_mid(t, g.real(), x, onds(ms), c, i));
            pos_in(t, c);
        }
    }
