// Changing the tree.
%use gtmid.vx
%raw
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// No inode has more children.
    pub open spec fn nums_kept(self, o: Self) -> bool {
        &&& self.inodes@.len() >= o.inodes@.len()
        &&& forall|z: int| 0 <= z < o.inodes@.len() ==> (#[trigger] self.inodes@[z]).num_children == o.inodes@[z].num_children
    }
    /// Everything but lengths.
    #[verifier::opaque]
    pub open spec fn almost(self) -> bool {
        self.t@.shape() && self.t@.all_in() && self.t@.nonneg() && self.rep()
    }
    #[verifier::opaque]
    pub open spec fn midg(self, x: int, s: Option<Inode<ARITY, L>>) -> bool {
        &&& mid(self.t@, self.real(), x, onds(s))
        &&& self.fits() && self.root_idx.0 == self.t@.root()
        &&& s is Some ==> s->Some_0.fits()
    }
}
/// Nothing but inodes' lengths differ.
pub open spec fn lens_only(t: T, t2: T) -> bool {
    &&& t2.lv == t.lv && t2.lpar == t.lpar && t2.nd.len() == t.nd.len()
    &&& forall|z: int| 0 <= z < t.nd.len() ==> (#[trigger] t2.nd[z]).kids == t.nd[z].kids && t2.nd[z].par == t.nd[z].par && t2.nd[z].lev == t.nd[z].lev
}
pub proof fn sound_parts<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>)
    requires g.sound(),
    ensures g.almost(), g.t@.shape(), g.t@.all_in(), g.t@.lens_ok(), g.t@.nonneg(), owes(g.t@, nowhere(), 0), g.fits(), g.t@.nd.len() == g.inodes@.len(), g.t@.llen.len() == g.lnodes@.len(),
        g.root_idx.0 == g.t@.root(),
{
    reveal(Gtree::sound);
    reveal(Gtree::almost);
    assert(g.real().llen.len() == g.lnodes@.len());
}
pub proof fn almost_parts<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>)
    requires g.almost(),
    ensures
        g.t@.shape(), g.t@.all_in(), g.t@.nonneg(), g.fits(), g.t@.nd.len() == g.inodes@.len(), g.t@.llen.len() == g.lnodes@.len(), g.t@.nd.len() <= nowhere(),
        g.root_idx.0 == g.t@.root(),
        forall|z: int| 0 <= z < g.t@.nd.len() ==> (#[trigger] g.inodes@[z]).tot_len == g.t@.nd[z].len && g.inodes@[z].parent.0 == g.t@.nd[z].par,
{
    reveal(Gtree::almost);
    assert(g.real().llen.len() == g.lnodes@.len());
    assert forall|z: int| 0 <= z < g.t@.nd.len() implies (#[trigger] g.inodes@[z]).tot_len == g.t@.nd[z].len && g.inodes@[z].parent.0 == g.t@.nd[z].par by {
        assert(g.real().nd[z] == g.inodes@[z].nd());
        assert(like(g.real().nd[z], g.t@.nd[z]));
    }
    unshape(g.t@);
}
pub proof fn almost_sound<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, y: int, d: int)
    requires g.almost(), owes(g.t@, y, d), y >= g.t@.nd.len() || d == 0,
    ensures g.sound(),
{
    reveal(Gtree::sound);
    reveal(Gtree::almost);
    assert(g.t@.lens_ok());
}
/// Another length can be added to those of `x` and everything above it.
pub open spec fn rises(t: T, x: int, d: int) -> bool {
    &&& 0 <= t.nd[x].len + d
    &&& forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev >= t.nd[x].lev ==> (#[trigger] t.nd[z]).len + d <= usize::MAX && (t.nd[z].par != nowhere() ==> t.nd[z].len <= t.nd[t.nd[z].par].len)
}
/// What's off once `x`, whose length was to change by `d`, has passed that on to `y`.
pub open spec fn passed(t: T, t2: T, x: int, y: int, d: int) -> bool {
    forall|z: int| 0 <= z < t.nd.len() ==> #[trigger] t2.off(z) == t.off(z) + (if z == y { d } else { 0 }) - (if z == x { d } else { 0 })
}
/// An inode isn't longer than its parent.
pub proof fn par_le(t: T, z: int)
    requires t.shape(), t.all_in(), t.nonneg(), 0 <= z < t.nd.len(), t.nd[z].par != nowhere(), t.off(t.nd[z].par) == 0,
    ensures t.nd[z].len <= t.nd[t.nd[z].par].len,
{
    let a = above_it(t, z);
    kid_le(t, a.0 + 1, a.2, a.3);
}
pub proof fn owes_rises(t: T, x: int, d: int)
    requires t.shape(), t.all_in(), t.nonneg(), 0 <= x < t.nd.len(), owes(t, x, d), t.nd[t.root()].len + d <= usize::MAX,
    ensures rises(t, x, d),
{
    owed(t, x, d);
    assert forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev >= t.nd[x].lev implies (#[trigger] t.nd[z]).len + d <= usize::MAX && (t.nd[z].par != nowhere() ==> t.nd[z].len <= t.nd[t.nd[z].par].len) by {
        let w = where_is(t, z);
        anc_le(t, w.0, w.1);
        if t.nd[z].par != nowhere() {
            let a = above_it(t, z);
            assert(t.off(t.nd[z].par) == 0);
            par_le(t, z);
        }
    }
}
pub proof fn patch_step<const ARITY: usize, L: Leaf>(g0: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, x: int, d: int)
    requires
        g0.almost(), 0 <= x < g0.t@.nd.len(),
        g1.t@ == g0.t@.with_len(x, g0.t@.nd[x].len + d),
        g1.inodes@.len() == g0.inodes@.len(),
        forall|z: int| 0 <= z < g0.inodes@.len() && z != x ==> #[trigger] g1.inodes@[z] == g0.inodes@[z],
        g1.inodes@[x].tot_len == g0.t@.nd[x].len + d,
        g1.inodes@[x] == (Inode { tot_len: g1.inodes@[x].tot_len, ..g0.inodes@[x] }),
        g1.lnodes == g0.lnodes, g1.root_idx == g0.root_idx,
    ensures g1.almost(), passed(g0.t@, g1.t@, x, g0.t@.nd[x].par, d), lens_only(g0.t@, g1.t@),
{
    almost_parts(g0);
    let t = g0.t@;
    with_len_ok(t, x, t.nd[x].len + d);
    not_self(t, x);
    assert(g1.t@.root() == t.root());
    assert(g1.almost()) by {
        reveal(Gtree::almost);
        assert(g1.real().lpar =~= g0.real().lpar);
        assert(g1.real().llen =~= g0.real().llen);
        assert(g1.inodes@[x].kids() =~= g0.inodes@[x].kids());
        assert forall|z: int| 0 <= z < t.nd.len() implies like(g1.real().nd[z], #[trigger] g1.t@.nd[z]) by {
            assert(like(g0.real().nd[z], t.nd[z]));
            assert(g0.real().nd[z] == g0.inodes@[z].nd() && g1.real().nd[z] == g1.inodes@[z].nd());
        }
        assert forall|z: int| 0 <= z < g1.inodes@.len() implies (#[trigger] g1.inodes@[z]).fits() by { assert(g0.inodes@[z].fits()); }
        assert(g1.t@.nonneg()) by {
            assert forall|z: int| 0 <= z < t.nd.len() implies (#[trigger] g1.t@.nd[z]).len >= 0 by { assert(t.nd[z].len >= 0); }
        }
    }
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn patch
    requires
        old(self).almost(),
        starting_from.0 as int == nowhere() || starting_from.0 < old(self).t@.nd.len(),
        ({
            let t = old(self).t@;
            let x = starting_from.0 as int;
            let d = <Length as LengthExt>::dnum(diff);
            rises(t, x, d) || owes(t, x, d) && (x != nowhere() ==> t.nd[t.root()].len + d <= usize::MAX)
        }),
    ensures
        final(self).almost(), passed(old(self).t@, final(self).t@, starting_from.0 as int, nowhere(), <Length as LengthExt>::dnum(diff)),
        owes(old(self).t@, starting_from.0 as int, <Length as LengthExt>::dnum(diff)) ==> final(self).sound(),
        lens_only(old(self).t@, final(self).t@), final(self).t@.llen == old(self).t@.llen,
        starting_from.0 as int != nowhere() ==> final(self).t@.nd[final(self).t@.root()].len == old(self).t@.nd[old(self).t@.root()].len + <Length as LengthExt>::dnum(diff),
        final(self).lnodes == old(self).lnodes, final(self).cursor == old(self).cursor, final(self).root_idx == old(self).root_idx,
        final(self).inodes@.len() == old(self).inodes@.len(), final(self).nums_kept(*old(self)),
%at start
    let ghost d = <Length as LengthExt>::dnum(diff);
    let ghost t0 = self.t@;
    let ghost x0 = starting_from.0 as int;
    proof {
        almost_parts(*self);
        top(t0);
        if x0 != nowhere() && !rises(t0, x0, d) { owes_rises(t0, x0, d); }
    }
%loop 0
    invariant
        self.almost(), d == <Length as LengthExt>::dnum(diff),
        idx.0 as int == nowhere() || idx.0 < self.t@.nd.len(),
        idx.0 as int == nowhere() ==> x0 == nowhere() || self.t@.nd[self.t@.root()].len == t0.nd[t0.root()].len + d,
        x0 == nowhere() ==> idx.0 as int == nowhere(),
        x0 != nowhere() ==> 0 <= x0 < t0.nd.len() && rises(t0, x0, d),
        passed(t0, self.t@, x0, idx.0 as int, d),
        idx.0 as int != nowhere() ==> t0.nd[idx.0 as int].lev >= t0.nd[x0].lev && 0 <= t0.nd[idx.0 as int].len + d
            && forall|z: int| 0 <= z < t0.nd.len() && t0.nd[z].lev >= t0.nd[idx.0 as int].lev ==> #[trigger] self.t@.nd[z] == t0.nd[z],
        lens_only(t0, self.t@), t0.shape(), t0.all_in(), self.t@.llen == t0.llen, t0 == old(self).t@, t0.nd.len() <= nowhere(),
        self.lnodes == old(self).lnodes, self.cursor == old(self).cursor, self.root_idx == old(self).root_idx, self.inodes@.len() == old(self).inodes@.len(), self.nums_kept(*old(self)),
    decreases if idx.0 as int == nowhere() { 0 } else { self.t@.h() - self.t@.nd[idx.0 as int].lev + 1 },
%at loopstart 0
    let ghost g0 = *self;
    let ghost x = idx.0 as int;
    proof {
        almost_parts(*self);
        let w = where_is(self.t@, x);
        not_top(self.t@, w.0, w.1);
        assert(t0.nd[x].len + d <= usize::MAX);
        assert(self.t@.nd[x] == t0.nd[x]);
        if self.t@.nd[x].par != nowhere() { let a = above_it(self.t@, x); }
    }
%at loopend 0
    proof {
        self.t@ = g0.t@.with_len(x, g0.t@.nd[x].len + d);
        patch_step(g0, *self, x, d);
        assert(self.t@.root() == g0.t@.root());
        assert forall|z: int| 0 <= z < t0.nd.len() implies #[trigger] self.t@.off(z) == t0.off(z) + (if z == idx.0 as int { d } else { 0 }) - (if z == x0 { d } else { 0 }) by {
            assert(g0.t@.off(z) == t0.off(z) + (if z == x { d } else { 0 }) - (if z == x0 { d } else { 0 }));
        }
    }
%at end
    proof {
        almost_parts(*self);
        if owes(t0, x0, d) {
            assert forall|z: int| 0 <= z < self.t@.nd.len() implies #[trigger] self.t@.off(z) == if z == nowhere() { d } else { 0 } by {
                assert(t0.off(z) == if z == x0 { d } else { 0 });
            }
            almost_sound(*self, nowhere(), d);
        }
    }
%raw
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// Leaves are as they were.
    pub open spec fn leaves_kept(self, o: Self) -> bool {
        &&& self.t@.lv[0] == o.t@.lv[0] && self.t@.llen == o.t@.llen
        &&& self.lnodes@.len() == o.lnodes@.len()
        &&& forall|c: int| 0 <= c < o.lnodes@.len() ==> (#[trigger] self.lnodes@[c]).value == o.lnodes@[c].value
        &&& self.cursor == o.cursor
    }
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn root_has_split
    requires
        old(self).midg(old(self).t@.root(), Some(root_split)),
        exists|d: int| #[trigger] owes(old(self).t@, nowhere(), d),
        old(self).t@.nd[old(self).t@.root()].len <= usize::MAX,
    ensures
        final(self).sound(), final(self).leaves_kept(*old(self)), final(self).nums_kept(*old(self)),
        forall|c: int, i: int| old(self).t@.leaf_in(c) && #[trigger] kid_mid(old(self).t@, old(self).real(), old(self).t@.root(), Some(root_split.nd()), c, i) ==> final(self).t@.kid_at(c, i),
%at start
    let ghost g0 = *self;
    let ghost n = root_split.nd();
    let ghost d = choose|d: int| #[trigger] owes(self.t@, nowhere(), d);
    let ghost t = self.t@;
    let ghost rt = self.real();
    let ghost x = t.root();
    proof {
        reveal(Gtree::midg);
        mid_kids(t, rt, x, Some(n));
        assert(rt.nd[x] == self.inodes@[x].nd());
        assert(self.real().llen.len() == self.lnodes@.len());
        assert forall|j: int| 0 <= j < root_split.num_children implies #[trigger] root_split.kids()[j] == t.nd[x].kids[rt.nd[x].kids.len() + j] by {}
        if root_split.has_leaves {
            assert forall|j: int| 0 <= j < root_split.num_children implies 0 <= (#[trigger] root_split.kids()[j]) < self.lnodes@.len() && self.lnodes@[root_split.kids()[j]].value.vlen() >= 0 by {
                assert(self.real().llen[root_split.kids()[j]] == self.lnodes@[root_split.kids()[j]].value.vlen());
            }
        }
    }
%after let split_idx
    proof {
        assert(t.nd.len() + 1 < nowhere());
        assert(mid_top(t, rt, n, d));
        mid_root(t, rt, n, d);
        assert(self.inodes@[x].tot_len == rt.nd[x].len);
        assert(x != t.nd.len());
    }
%before let new_root_idx
    proof {
        assert(new_root.kids() == new_root.nd().kids);
        assert(new_root.kids().len() == new_root.num_children);
        assert(new_root.kids()[0] == x && new_root.kids()[1] == t.nd.len());
    }
%after let new_root_idx
    let ghost g2 = *self;
    proof {
        assert(new_root.nd() == Nd { kids: seq![x, t.nd.len() as int], par: nowhere(), len: rt.nd[x].len + n.len, lev: 2 });
        assert(self.real() == root_pushed(t, rt, n));
    }
%at end
    proof {
        let t2 = root_grown(t, rt, n);
        self.t@ = t2;
        let y = t.nd.len() as int;
        grow_nodes(t, rt.nd[x].kids.len() as int, rt.nd[x].len, n.len);
        assert forall|z: int| 0 <= z < t2.nd.len() implies like(self.real().nd[z], #[trigger] t2.nd[z]) by {
            assert(like(g2.real().nd[z], t2.nd[z]));
            assert(g2.real().nd[z] == g2.inodes@[z].nd() && self.real().nd[z] == self.inodes@[z].nd());
            assert(self.inodes@[z].kids() =~= g2.inodes@[z].kids());
        }
        assert forall|z: int| 0 <= z < self.inodes@.len() implies (#[trigger] self.inodes@[z]).fits() by { assert(g2.inodes@[z].fits()); }
        assert(self.real().lpar =~= g2.real().lpar);
        assert(self.real().llen =~= g2.real().llen);
        assert(self.sound()) by { reveal(Gtree::sound); }
    }
