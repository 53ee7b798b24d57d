// Inserting at an offset.
%use gtapi.vx
%raw
pub proof fn almost_mid<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int)
    requires g.almost(), 0 <= x < g.t@.nd.len(),
    ensures g.midg(x, None),
{
    reveal(Gtree::almost);
    reveal(Gtree::midg);
    reveal(mid);
    assert forall|z: int| 0 <= z < g.t@.nd.len() implies (#[trigger] g.real().nd[z]).lev == if g.t@.nd[z].lev == 1 { 1int } else { 2 } by {
        assert(like(g.real().nd[z], g.t@.nd[z]));
        assert(g.real().nd[z] == g.inodes@[z].nd());
    }
    assert(like(g.real().nd[x], g.t@.nd[x]));
}
/// An inode whose length is right, while those above it don't know of it yet.
pub open spec fn ripe<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, e: int) -> bool {
    g.almost() && 0 <= x < g.t@.nd.len() && g.t@.nd[x].lev == 1 && owes(g.t@, g.t@.nd[x].par, e)
}
pub proof fn ripe_exact<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, x: int, e: int)
    requires ripe(g, x, e), g1.has_more(g),
    ensures
        g1.exact(x), g1.inodes@[x].has_leaves, g1.inodes@[x].kids() == g.t@.nd[x].kids, g1.inodes@[x].num_children == g.t@.nd[x].kids.len(),
        g1.inodes@[x].tot_len == g.t@.nd[x].len, g1.inodes@[x].parent.0 == g.t@.nd[x].par, g1.fits(),
        g1.real().nd[x].lev == 1,
        g.inodes@.len() == g.t@.nd.len(), g.lnodes@.len() == g.t@.llen.len(),
{
    let t = g.t@;
    almost_parts(g);
    reveal(Gtree::almost);
    let w = where_is(t, x);
    kids_slice(t, w.0, w.1);
    not_self(t, x);
    assert(t.off(x) == 0);
    let ks = t.nd[x].kids;
    assert(like(g.real().nd[x], t.nd[x]));
    assert(g.real().nd[x] == g.inodes@[x].nd());
    assert(g1.inodes@[x].kids() == g1.inodes@[x].nd().kids);
    assert(g1.inodes@[x].kids().len() == g1.inodes@[x].num_children);
    assert(g1.real().nd[x] == g1.inodes@[x].nd());
    unshape(t);
    assert(t.node_ok(w.0, t.lv[w.0][w.1]));
    assert forall|i: int| 0 <= i < ks.len() implies g1.real().len(0, #[trigger] ks[i]) == t.len(0, ks[i]) && g1.lnodes@[ks[i]].value.vlen() >= 0 && 0 <= ks[i] < g1.lnodes@.len() by {
        assert(t.at(0, t.st(w.0, w.1) + i)) by { child_place(t, w.0, w.1, i); }
        child_place(t, w.0, w.1, i);
        assert(0 <= ks[i] < t.llen.len());
        assert(g.real().llen[ks[i]] == g.lnodes@[ks[i]].value.vlen());
        assert(g1.lnodes@[ks[i]] == g.lnodes@[ks[i]]);
        assert(t.llen[ks[i]] >= 0);
    }
    tot_cong(g1.real(), t, 0, ks);
    assert forall|z: int| 0 <= z < g1.inodes@.len() implies (#[trigger] g1.inodes@[z]).fits() by { assert(g.inodes@[z].fits()); }
    let n = g1.inodes@[x];
    assert forall|j: int| 0 <= j < n.num_children implies 0 <= (#[trigger] n.kids()[j]) < g1.lnodes@.len() && g1.lnodes@[n.kids()[j]].value.vlen() >= 0 by { assert(n.kids()[j] == ks[j]); }
    assert(g1.exact(x));
}
/// Its children are that much longer.
pub proof fn ripe_longer(t: T, t1: T, x: int, kids: Seq<int>, v: int, e: int) -> (t2: T)
    requires
        t.shape(), t.all_in(), owes(t, t.nd[x].par, e), t.nonneg(), 0 <= x < t.nd.len(), t.nd[x].lev == 1,
        t1.shape(), t1.all_in(), t1.nonneg(), v >= 0,
        t1.nd == t.nd.update(x, Nd { kids, ..t.nd[x] }), t1.root() == t.root(), t1.h() == t.h(),
        forall|z: int| 0 <= z < t.nd.len() ==> #[trigger] t1.off(z) == t.off(z) + if z == x { v } else { 0 },
    ensures
        t2 == t1.with_len(x, t.nd[x].len + v),
        regrown(t, t2, x, kids, t.nd[x].len + v),
        owes(t2, t2.nd[x].par, e + v),
        t2.nd[x].par == t.nd[x].par,
{
    let t2 = t1.with_len(x, t.nd[x].len + v);
    with_len_ok(t1, x, t.nd[x].len + v);
    not_self(t1, x);
    not_self(t, x);
    let w = where_is(t, x);
    not_top(t, w.0, w.1);
    top(t);
    assert(t2.nd =~= t.nd.update(x, Nd { kids, len: t.nd[x].len + v, ..t.nd[x] }));
    assert(t2.nonneg()) by {
        assert forall|z: int| 0 <= z < t2.nd.len() implies (#[trigger] t2.nd[z]).len >= 0 by { assert(t1.nd[z].len >= 0); assert(t.nd[x].len >= 0); }
    }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.off(z) == if z == t2.nd[x].par { e + v } else { 0 } by {
        assert(t.off(z) == if z == t.nd[x].par { e } else { 0 });
        assert(t1.off(z) == t.off(z) + if z == x { v } else { 0 });
    }
    t2
}
pub proof fn ripe_mid<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, e: int, t2: T, kids: Seq<int>, v: int, s: Option<Inode<ARITY, L>>)
    requires
        ripe(g, x, e), g1.has_more(g),
        g2.same_but(g1, x), g2.fits(), s is Some ==> s->Some_0.fits(),
        regrown(g.t@, t2, x, kids, g.t@.nd[x].len + v),
        t2.lpar == g1.real().lpar, t2.llen == g1.real().llen,
        joint(g1.real(), g2.inodes@[x].nd(), onds(s), kids, g.t@.nd[x].len + v),
    ensures
        mid(t2, g2.real(), x, onds(s)), g2.root_idx.0 == t2.root(),
        g2.real().nd[x] == g2.inodes@[x].nd(), g2.inodes@[x].nd().kids.len() == g2.inodes@[x].num_children,
{
    let t = g.t@;
    almost_parts(g);
    ripe_exact(g, g1, x, e);
    real_but(g2, g1, x);
    assert(g1.real().nd =~= g.real().nd);
    assert(g2.real().nd[x] == g2.inodes@[x].nd());
    assert(g2.real().llen == g1.real().llen);
    let rt = g2.real();
    assert forall|i: int| 0 <= i < kids.len() implies g1.real().len(0, #[trigger] kids[i]) == rt.len(0, kids[i]) by {}
    joint_same(g1.real(), rt, rt.nd[x], onds(s), kids, t.nd[x].len + v);
    reveal(Gtree::almost);
    assert forall|z: int| 0 <= z < t.nd.len() && z != x implies like(rt.nd[z], #[trigger] t.nd[z]) by {
        assert(like(g.real().nd[z], t.nd[z]));
        assert(rt.nd[z] == g.real().nd[z]);
    }
    assert forall|z: int| 0 <= z < t.nd.len() implies (#[trigger] rt.nd[z]).lev == if t.nd[z].lev == 1 { 1int } else { 2 } by {
        assert(like(g.real().nd[z], t.nd[z]));
        assert(g.real().nd[z] == g.inodes@[z].nd() && g2.real().nd[z] == g2.inodes@[z].nd());
    }
    mid_new(t, t2, rt, x, kids, t.nd[x].len + v, onds(s));
}
/// A leaf has another value, and its parent the length that's right for it.
pub open spec fn reset<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, p: int, v: L) -> bool {
    let c = g.t@.lv[0][p];
    let x = g.t@.lpar[c];
    let e = v.vlen() - g.t@.llen[c];
    &&& ga.t@ == g.t@.with_leaf_len(c, v.vlen()).with_len(x, g.t@.nd[x].len + e)
    &&& ga.inodes@.len() == g.inodes@.len()
    &&& forall|z: int| 0 <= z < g.inodes@.len() && z != x ==> #[trigger] ga.inodes@[z] == g.inodes@[z]
    &&& ga.inodes@[x] == (Inode { tot_len: ga.inodes@[x].tot_len, ..g.inodes@[x] })
    &&& ga.inodes@[x].tot_len == g.t@.nd[x].len + e
    &&& ga.lnodes@ == g.lnodes@.update(c, Lnode { value: v, ..g.lnodes@[c] })
    &&& ga.root_idx == g.root_idx && ga.cursor == g.cursor
}
pub proof fn reset_ripe<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, p: int, v: L)
    requires g.sound(), 0 <= p < g.t@.lv[0].len(), v.vlen() >= 0, reset(g, ga, p, v),
    ensures
        ripe(ga, g.t@.lpar[g.t@.lv[0][p]], v.vlen() - g.t@.llen[g.t@.lv[0][p]]),
        ga.leaves() == g.leaves().update(p, lf(g.leaves()[p].idx, v)),
        ga.t@.root() == g.t@.root(), ga.t@.lv == g.t@.lv, ga.t@.lpar == g.t@.lpar,
        ga.t@.nd == g.t@.nd.update(g.t@.lpar[g.t@.lv[0][p]], Nd { len: g.t@.nd[g.t@.lpar[g.t@.lv[0][p]]].len + v.vlen() - g.t@.llen[g.t@.lv[0][p]], ..g.t@.nd[g.t@.lpar[g.t@.lv[0][p]]] }),
        ga.t@.h() == g.t@.h(),
{
    let t = g.t@;
    let c = t.lv[0][p];
    let x = t.lpar[c];
    let w = at_leaf(g, p);
    let t1 = t.with_leaf_len(c, v.vlen());
    let g1 = Gtree { t: Ghost(t1), lnodes: ga.lnodes, ..g };
    at_root(g);
    set_almost(g, g1, p, v);
    patch_step(g1, ga, x, v.vlen() - t.llen[c]);
    assert(ga.leaves() =~= g1.leaves());
    assert(ga.t@.nd =~= t.nd.update(x, Nd { len: t.nd[x].len + v.vlen() - t.llen[c], ..t.nd[x] }));
}
/// What's below `x` has changed; those above it don't know of it.
pub open spec fn stepped<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>) -> bool {
    let t = g.t@;
    let t2 = g2.t@;
    let d = t2.nd[x].len - t.nd[x].len;
    &&& g2.midg(x, s)
    &&& owes(t2, t2.nd[x].par, d)
    &&& t2.root() == t.root() && t2.h() == t.h()
    &&& t2.nd.len() >= t.nd.len() && 0 <= x < t.nd.len()
    &&& t2.nd[x].par == t.nd[x].par && t2.nd[x].lev == t.nd[x].lev
    &&& forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev > t.nd[x].lev ==> (#[trigger] t2.nd[z]) == t.nd[z]
    &&& t.nd[t.root()].len + d <= usize::MAX
}
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// The cursor is right once `s` is part of the tree.
    pub open spec fn cursor_mid(self, x: int, s: Option<Inode<ARITY, L>>) -> bool {
        match self.cursor {
            None => true,
            Some(c) => {
                &&& self.t@.leaf_in(c.leaf_idx.idx as int)
                &&& c.offset == self.t@.pre(self.t@.pos(c.leaf_idx.idx as int))
                &&& kid_mid(self.t@, self.real(), x, onds(s), c.leaf_idx.idx as int, c.child_idx as int)
            },
        }
    }
}
pub proof fn sums_mid<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>, i: int)
    requires g.midg(x, s), 0 <= i <= g.t@.lv[0].len(),
    ensures vsum(g.leaves(), i) == g.t@.pre(i), g.leaves().len() == g.t@.lv[0].len(),
    decreases i,
{
    if i > 0 {
        sums_mid(g, x, s, i - 1);
        tot_at(g.t@, 0, g.t@.lv[0], i - 1);
        midg_parts(g, x, s);
        unshape(g.t@);
        let c = g.t@.lv[0][i - 1];
        assert(g.real().llen == g.t@.llen) by { reveal(Gtree::midg); reveal(mid); }
        assert(g.real().llen[c] == g.lnodes@[c].value.vlen());
    } else {
        assert(g.t@.lv[0].take(0) =~= Seq::<int>::empty());
    }
}
/// What's put in, and what of it is known to be there.
pub open spec fn split_put<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, p: int, v: L, m: (Option<L>, Option<L>), r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>, Option<Inode<ARITY, L>>), j: int) -> bool {
    let c = g.t@.lv[0][p];
    let x = g.t@.lpar[c];
    &&& put(g.leaves(), g2.leaves(), p, v, m, (r.0, r.1))
    &&& stepped(g, g2, x, r.2)
    &&& g2.cursor == g.cursor
    &&& p < g2.t@.lv[0].len() && g2.t@.lv[0][p] == c
    &&& match r.0 {
        None => kid_mid(g2.t@, g2.real(), x, onds(r.2), c, shifted(g2.inodes@[x].num_children as int, j)),
        Some(n) => {
            &&& p + 1 < g2.t@.lv[0].len() && g2.t@.lv[0][p + 1] == n.idx
            &&& kid_mid(g2.t@, g2.real(), x, onds(r.2), n.idx as int, shifted(g2.inodes@[x].num_children as int, j + 1))
        },
    }
}
/// A leaf's been put into an inode, which may have been split.
pub proof fn one_put<const ARITY: usize, L: Leaf>(ga: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, e: int, q: int, j: int, v: int, s: Option<Inode<ARITY, L>>) -> (t2: T)
    requires
        ripe(ga, x, e), g1.has_more(ga), g1.lnodes@.len() == ga.lnodes@.len() + 1, g1.lnodes@[ga.lnodes@.len() as int].parent.0 == x, g1.lnodes@[ga.lnodes@.len() as int].value.vlen() == v, v >= 0,
        can_leaf(ga.t@, q, j), ga.t@.lv[1][q] == x,
        g2.same_but(g1, x), g2.fits(), s is Some ==> s->Some_0.fits(),
        joint(g1.real(), g2.inodes@[x].nd(), onds(s), ga.t@.nd[x].kids.insert(j, ga.t@.llen.len() as int), ga.t@.nd[x].len + v),
    ensures
        mid(t2, g2.real(), x, onds(s)), g2.root_idx.0 == t2.root(),
        regrown(ga.t@, t2, x, ga.t@.nd[x].kids.insert(j, ga.t@.llen.len() as int), ga.t@.nd[x].len + v),
        owes(t2, t2.nd[x].par, e + v), t2.nd[x].par == ga.t@.nd[x].par,
        t2.lv[0] == ga.t@.lv[0].insert(ga.t@.st(1, q) + j, ga.t@.llen.len() as int), 0 <= ga.t@.st(1, q) + j <= ga.t@.lv[0].len(),
        kid_mid(t2, g2.real(), x, onds(s), ga.t@.llen.len() as int, shifted(g2.inodes@[x].num_children as int, j)),
{
    let t = ga.t@;
    let c = t.llen.len() as int;
    let kids = t.nd[x].kids.insert(j, c);
    let t1 = t.with_leaf(q, j, v);
    almost_parts(ga);
    one_more(t, q, j, v);
    let t2 = ripe_longer(t, t1, x, kids, v, e);
    assert(t2.lpar == g1.real().lpar && t2.llen == g1.real().llen) by {
        reveal(Gtree::almost);
        assert(t2.lpar =~= g1.real().lpar);
        assert(t2.llen =~= g1.real().llen);
    }
    ripe_mid(ga, g1, g2, x, e, t2, kids, v, s);
    kid_mid_at(t2, g2.real(), x, onds(s), j);
    t2
}
/// ...and two.
pub proof fn two_put<const ARITY: usize, L: Leaf>(ga: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, e: int, q: int, j: int, v1: int, v2: int, s: Option<Inode<ARITY, L>>) -> (t2: T)
    requires
        ripe(ga, x, e), g1.has_more(ga), g1.lnodes@.len() == ga.lnodes@.len() + 2,
        g1.lnodes@[ga.lnodes@.len() as int].parent.0 == x, g1.lnodes@[ga.lnodes@.len() as int].value.vlen() == v1, v1 >= 0,
        g1.lnodes@[ga.lnodes@.len() as int + 1].parent.0 == x, g1.lnodes@[ga.lnodes@.len() as int + 1].value.vlen() == v2, v2 >= 0,
        can_leaf(ga.t@, q, j), ga.t@.lv[1][q] == x, ga.t@.llen.len() + 1 < nowhere(),
        g2.same_but(g1, x), g2.fits(), s is Some ==> s->Some_0.fits(),
        joint(g1.real(), g2.inodes@[x].nd(), onds(s), ga.t@.nd[x].kids.insert(j, ga.t@.llen.len() as int).insert(j + 1, ga.t@.llen.len() as int + 1), ga.t@.nd[x].len + v1 + v2),
    ensures
        mid(t2, g2.real(), x, onds(s)), g2.root_idx.0 == t2.root(),
        regrown(ga.t@, t2, x, ga.t@.nd[x].kids.insert(j, ga.t@.llen.len() as int).insert(j + 1, ga.t@.llen.len() as int + 1), ga.t@.nd[x].len + v1 + v2),
        owes(t2, t2.nd[x].par, e + v1 + v2), t2.nd[x].par == ga.t@.nd[x].par,
        t2.lv[0] == ga.t@.lv[0].insert(ga.t@.st(1, q) + j, ga.t@.llen.len() as int).insert(ga.t@.st(1, q) + j + 1, ga.t@.llen.len() as int + 1), 0 <= ga.t@.st(1, q) + j <= ga.t@.lv[0].len(),
        kid_mid(t2, g2.real(), x, onds(s), ga.t@.llen.len() as int, shifted(g2.inodes@[x].num_children as int, j)),
{
    let t = ga.t@;
    let c = t.llen.len() as int;
    let kids1 = t.nd[x].kids.insert(j, c);
    let kids = kids1.insert(j + 1, c + 1);
    let ta = t.with_leaf(q, j, v1);
    let t1 = ta.with_leaf(q, j + 1, v2);
    almost_parts(ga);
    one_more(t, q, j, v1);
    assert(ta.llen.len() == c + 1);
    one_more(ta, q, j + 1, v2);
    assert(t1.nd =~= t.nd.update(x, Nd { kids, ..t.nd[x] }));
    assert forall|z: int| 0 <= z < t.nd.len() implies #[trigger] t1.off(z) == t.off(z) + if z == x { v1 + v2 } else { 0 } by { assert(ta.off(z) == t.off(z) + if z == x { v1 } else { 0 }); }
    let t2 = ripe_longer(t, t1, x, kids, v1 + v2, e);
    assert(t2.lpar == g1.real().lpar && t2.llen == g1.real().llen) by {
        reveal(Gtree::almost);
        assert(t2.lpar =~= g1.real().lpar);
        assert(t2.llen =~= g1.real().llen);
    }
    ripe_mid(ga, g1, g2, x, e, t2, kids, v1 + v2, s);
    kid_mid_at(t2, g2.real(), x, onds(s), j);
    t2
}
pub proof fn put_stepped<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, p: int, v: L, kids: Seq<int>, u: int, s: Option<Inode<ARITY, L>>)
    requires
        g.sound(), 0 <= p < g.t@.lv[0].len(), v.vlen() >= 0, reset(g, ga, p, v),
        g2.midg(g.t@.lpar[g.t@.lv[0][p]], s),
        regrown(ga.t@, g2.t@, g.t@.lpar[g.t@.lv[0][p]], kids, ga.t@.nd[g.t@.lpar[g.t@.lv[0][p]]].len + u),
        owes(g2.t@, g2.t@.nd[g.t@.lpar[g.t@.lv[0][p]]].par, v.vlen() - g.t@.llen[g.t@.lv[0][p]] + u),
        g.t@.nd[g.t@.root()].len - g.t@.llen[g.t@.lv[0][p]] + v.vlen() + u <= usize::MAX,
    ensures stepped(g, g2, g.t@.lpar[g.t@.lv[0][p]], s),
{
    reset_ripe(g, ga, p, v);
    almost_parts(ga);
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn with_leaf_mut_handle_parent
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] fun.requires((a,)),
        forall|a: &mut L, m: T| #[trigger] fun.ensures((a,), m) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> 0 <= (*final(a)).vlen() && old(self).t@.nd[old(self).t@.root()].len - (*a).vlen() + (*final(a)).vlen() <= usize::MAX,
    ensures
        exists|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value && #[trigger] fun.ensures((a,), r)
            && reset(*old(self), *final(self), old(self).t@.pos(leaf_idx.idx as int), *final(a)),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof {
        leaf_len(g, p);
        at_root(g);
        let w = at_leaf(g, p);
        let wn = at_node(g, t.lpar[c]);
        sound_parts(g);
        anc_le(t, wn.0, wn.1);
    }
%before let new_len
    let ghost v = *leaf;
%at end
    proof { self.t@ = t.with_leaf_len(c, v.vlen()).with_len(t.lpar[c], t.nd[t.lpar[c]].len + v.vlen() - t.llen[c]); }
%fn with_leaf_mut_handle_split
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int), old(self).t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] fun.requires((a,)),
        forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] fun.ensures((a,), m) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> may_put(old(self).t@.nd[old(self).t@.root()].len, *a, *final(a), m),
    ensures
        exists|a: &mut L, m: (Option<L>, Option<L>)| *a == old(self).lnodes@[leaf_idx.idx as int].value && #[trigger] fun.ensures((a,), m)
            && split_put(*old(self), *final(self), old(self).t@.pos(leaf_idx.idx as int), *final(a), m, r, idx_in_parent as int),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c0 = leaf_idx.idx as int;
    let ghost p = t.pos(c0);
    let ghost x = t.lpar[c0];
    let ghost w = at_leaf(g, p);
    let ghost q = w.0;
    let ghost j = idx_in_parent + 1;
    proof {
        leaf_len(g, p);
        at_root(g);
        let wn = at_node(g, x);
        sound_parts(g);
        assert(w.1 == idx_in_parent);
    }
%after let (left, right)
    let ghost ga = *self;
    let ghost v = self.lnodes@[c0].value;
    let ghost m = (left, right);
    let ghost e = v.vlen() - t.llen[c0];
    proof {
        reset_ripe(g, ga, p, v);
        almost_parts(ga);
        sizes(self.inodes, self.lnodes);
        assert(may_put(t.nd[t.root()].len, g.lnodes@[c0].value, v, m));
        anc_le(t, 1, q);
        flat_cong(ga.t@.nd, t.nd, t.lv[1].take(q));
        assert(ga.t@.st(1, q) == t.st(1, q));
        assert(can_leaf(ga.t@, q, j));
    }
%after let right_idx
    let ghost g1 = *self;
    proof {
        sizes(self.inodes, self.lnodes);
        ripe_exact(ga, g1, x, e);
        assert(g1.real().llen[left_idx.idx as int] == left_len);
        assert(g1.real().llen[right_idx.idx as int] == right_len);
    }
%after let split
    proof {
        let g2 = *self;
        let t2 = two_put(ga, g1, g2, x, e, q, j, left_len as int, right_len as int, split);
        self.t@ = t2;
        assert(self.real() == g2.real());
        assert(self.midg(x, split)) by { reveal(Gtree::midg); }
        put_stepped(g, ga, *self, p, v, t2.nd[x].kids, left_len + right_len, split);
        more_leaves2(ga, g1, *self, p + 1);
        fresh_up(g.leaves(), p, lf(leaf_idx, v), left_idx);
        fresh_up(g.leaves(), p, lf(leaf_idx, v), right_idx);
        assert(split_put(g, *self, p, v, m, (Some(left_idx), Some(right_idx), split), idx_in_parent as int));
    }
%after 1 let left_idx
    let ghost g1 = *self;
    proof {
        sizes(self.inodes, self.lnodes);
        ripe_exact(ga, g1, x, e);
        assert(g1.real().llen[left_idx.idx as int] == len);
    }
%after 1 let split
    proof {
        let g2 = *self;
        let t2 = one_put(ga, g1, g2, x, e, q, j, len as int, split);
        self.t@ = t2;
        assert(self.real() == g2.real());
        assert(self.midg(x, split)) by { reveal(Gtree::midg); }
        put_stepped(g, ga, *self, p, v, t2.nd[x].kids, len as int, split);
        more_leaves(ga, g1, *self, t2, p + 1);
        fresh_up(g.leaves(), p, lf(leaf_idx, v), left_idx);
        assert(split_put(g, *self, p, v, m, (Some(left_idx), None, split), idx_in_parent as int));
    }
%at end
    proof {
        if m.0 is None {
            almost_mid(*self, x);
            assert(stepped(g, *self, x, None));
            let rt = self.real();
            assert(rt.nd[x] == self.inodes@[x].nd());
            reveal(Gtree::almost);
            assert(like(rt.nd[x], self.t@.nd[x]));
            assert(kid_mid(self.t@, rt, x, None, c0, shifted(self.inodes@[x].num_children as int, idx_in_parent as int)));
            assert(split_put(g, *self, p, v, m, vx_tail, idx_in_parent as int));
        }
    }
%raw
/// A parent's length follows a child's.
pub open spec fn lenable<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, x: int) -> bool {
    let p = ga.inodes@[x].parent.0 as int;
    &&& 0 <= x < ga.inodes@.len() && p != nowhere() && 0 <= p < ga.inodes@.len() && p != x
    &&& 0 <= ga.inodes@[p].tot_len - g.inodes@[x].tot_len && ga.inodes@[p].tot_len - g.inodes@[x].tot_len + ga.inodes@[x].tot_len <= usize::MAX
}
pub open spec fn relen<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int) -> bool {
    let p = ga.inodes@[x].parent.0 as int;
    &&& g2.same_but(ga, p)
    &&& g2.inodes@[p] == (Inode { tot_len: g2.inodes@[p].tot_len, ..ga.inodes@[p] })
    &&& g2.inodes@[p].tot_len == ga.inodes@[p].tot_len - g.inodes@[x].tot_len + ga.inodes@[x].tot_len
}
pub open spec fn lifted<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>, rest: Option<Inode<ARITY, L>>) -> bool {
    let p = g.t@.nd[x].par;
    &&& stepped(g, g2, p, rest)
    &&& g2.leaves_kept(ga)
    &&& forall|c: int, i: int| ga.t@.leaf_in(c) && #[trigger] kid_mid(ga.t@, ga.real(), x, onds(s), c, i) ==> kid_mid(g2.t@, g2.real(), p, onds(rest), c, i)
}
pub proof fn step_len<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>)
    requires g.sound(), stepped(g, ga, x, s), x != g.t@.root(),
    ensures
        lenable(g, ga, x),
        ({
            let t = g.t@;
            let p = t.nd[x].par;
            let d = ga.t@.nd[x].len - t.nd[x].len;
            &&& ga.inodes@[x].parent.0 == p && g.inodes@[x].tot_len == t.nd[x].len && 0 <= p < t.nd.len() && p != x && p != nowhere()
            &&& t.nd[p].lev == t.nd[x].lev + 1 && ga.t@.nd[p] == t.nd[p] && ga.inodes@[p].tot_len == t.nd[p].len
            &&& ga.t@.nd[t.root()].len + d <= usize::MAX
            &&& ga.inodes@[x].tot_len == t.nd[x].len + d - (match s { None => 0, Some(n) => n.tot_len as int })
        }),
{
    let t = g.t@;
    sound_parts(g);
    let w = at_node(g, x);
    let p = t.nd[x].par;
    let a = above_it(t, x);
    let wp = at_node(g, p);
    midg_parts(ga, x, s);
    let rt = ga.real();
    assert(mid(ga.t@, rt, x, onds(s))) by { reveal(Gtree::midg); }
    mid_kids(ga.t@, rt, x, onds(s));
    assert(ga.t@.nd[p] == t.nd[p]);
    assert(like(rt.nd[p], ga.t@.nd[p])) by { reveal(mid); }
    assert(rt.nd[p] == ga.inodes@[p].nd() && rt.nd[x] == ga.inodes@[x].nd());
    kid_le(t, wp.0, wp.1, a.3);
    assert(t.off(p) == 0);
    anc_le(t, wp.0, wp.1);
    top(t);
    let wr = at_node(g, t.root());
    assert(ga.t@.nd[t.root()] == t.nd[t.root()]);
    let d = ga.t@.nd[x].len - t.nd[x].len;
    owed(ga.t@, p, d);
}
pub proof fn lift_none<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int)
    requires
        g.sound(), stepped(g, ga, x, None), x != g.t@.root(),
        ({
            let p = g.t@.nd[x].par;
            &&& g2.t@ == ga.t@.with_len(p, g.t@.nd[p].len + ga.t@.nd[x].len - g.t@.nd[x].len)
            &&& relen(g, ga, Gtree { t: ga.t, ..g2 }, x)
        }),
    ensures lifted(g, ga, g2, x, None, None),
{
    let t = g.t@;
    let p = t.nd[x].par;
    let d = ga.t@.nd[x].len - t.nd[x].len;
    sound_parts(g);
    step_len(g, ga, x, None);
    midg_parts(ga, x, None);
    patch_step(ga, g2, p, d);
    almost_parts(g2);
    almost_parts(ga);
    almost_mid(g2, p);
    assert(stepped(g, g2, p, None)) by {
        let wp = at_node(g, p);
    }
    let rt = ga.real();
    assert(mid(ga.t@, rt, x, None)) by { reveal(Gtree::midg); }
    mid_none(ga.t@, rt, x);
    assert forall|c: int, i: int| ga.t@.leaf_in(c) && #[trigger] kid_mid(ga.t@, ga.real(), x, None, c, i) implies kid_mid(g2.t@, g2.real(), p, None, c, i) by {
        pos_in(ga.t@, c);
        assert(ga.t@.kid_at(c, i));
        assert(g2.t@.nd[ga.t@.lpar[c]].kids == ga.t@.nd[ga.t@.lpar[c]].kids);
        let w = at_node(g, x);
    }
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn with_internal_mut_handle_parent
    requires
        inode_idx.0 < old(self).inodes@.len(), inode_idx != old(self).root_idx,
        forall|a: &mut Self| *a == *old(self) ==> #[trigger] fun.requires((a,)),
        forall|a: &mut Self, m: R| #[trigger] fun.ensures((a,), m) && *a == *old(self) ==> lenable(*old(self), *final(a), inode_idx.0 as int),
    ensures
        exists|a: &mut Self| *a == *old(self) && #[trigger] fun.ensures((a,), r) && relen(*old(self), *final(a), *final(self), inode_idx.0 as int),
%after let ret
    let ghost ga = *self;
%raw
pub proof fn lift_can<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>)
    requires g.sound(), stepped(g, ga, x, Some(n)), x != g.t@.root(),
    ensures can_bub(ga, x, n, ga.t@.nd[x].len - g.t@.nd[x].len),
{
    step_len(g, ga, x, Some(n));
}
pub proof fn lift_bubbled<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>)
    requires
        g.sound(), stepped(g, ga, x, Some(n)), x != g.t@.root(),
        relen(g, ga, g1, x),
        g2.real() == pushed(g1.real(), n.nd(), g.t@.nd[x].par), g2.fits(), g2.root_idx == g1.root_idx, g2.inodes@.len() == g1.inodes@.len() + 1,
    ensures bubbled(ga, x, n, ga.t@.nd[x].len - g.t@.nd[x].len, g2),
{
    let p = g.t@.nd[x].par;
    let d = ga.t@.nd[x].len - g.t@.nd[x].len;
    sound_parts(g);
    step_len(g, ga, x, Some(n));
    midg_parts(ga, x, Some(n));
    let j = bub_before(ga, x, n, d);
    let rt = ga.real();
    assert(mid(ga.t@, rt, x, Some(n.nd()))) by { reveal(Gtree::midg); }
    mid_kids(ga.t@, rt, x, Some(n.nd()));
    assert(rt.nd[p] == ga.inodes@[p].nd() && rt.nd[x] == ga.inodes@[x].nd());
    real_but(g1, ga, p);
    assert(g1.real().nd[p] == g1.inodes@[p].nd());
    assert(g1.inodes@[p].kids() =~= ga.inodes@[p].kids());
    let r = pushed(rt, n.nd(), p);
    assert(g1.real().nd =~= rt.nd.update(p, Nd { len: ga.t@.nd[p].len + d - n.tot_len, ..rt.nd[p] }));
    if n.nd().lev != 1 && n.nd().kids.contains(p) {
        let i = choose|i: int| 0 <= i < n.nd().kids.len() && n.nd().kids[i] == p;
        let a = above_it(ga.t@, x);
        assert(ga.t@.nd[x].kids[rt.nd[x].kids.len() + i] == p);
    }
    assert(g2.real().nd =~= r.nd.update(p, Nd { len: ga.t@.nd[p].len + d - n.tot_len, ..r.nd[p] }));
}
/// What the tree's picture has become.
pub open spec fn lifts<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g3: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>, rest: Option<Inode<ARITY, L>>, t2: T) -> bool {
    let p = g.t@.nd[x].par;
    let d = g1.t@.nd[x].len - g.t@.nd[x].len;
    &&& mid(t2, g3.real(), p, onds(rest)) && g3.root_idx.0 == t2.root()
    &&& owes(t2, t2.nd[p].par, d)
    &&& step_like(g1.t@, t2, p, d)
    &&& forall|c: int, i: int| g1.t@.leaf_in(c) && #[trigger] kid_mid(g1.t@, g1.real(), x, onds(s), c, i) ==> kid_mid(t2, g3.real(), p, onds(rest), c, i)
}
pub proof fn lift_some<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, g3: Gtree<ARITY, L>, x: int, n: Inode<ARITY, L>, rest: Option<Inode<ARITY, L>>, j: int) -> (t2: T)
    requires
        g.sound(), stepped(g, ga, x, Some(n)), x != g.t@.root(),
        relen(g, ga, g1, x),
        bubbled(ga, x, n, ga.t@.nd[x].len - g.t@.nd[x].len, g2), ga.t@.nd.len() < nowhere(),
        g3.same_but(g2, g.t@.nd[x].par), g3.fits(), rest is Some ==> rest->Some_0.fits(),
        0 <= j < g.t@.nd[g.t@.nd[x].par].kids.len(), g.t@.nd[g.t@.nd[x].par].kids[j] == x,
        joint(g2.real(), g3.inodes@[g.t@.nd[x].par].nd(), onds(rest), g.t@.nd[g.t@.nd[x].par].kids.insert(j + 1, ga.t@.nd.len() as int), g.t@.nd[g.t@.nd[x].par].len + ga.t@.nd[x].len - g.t@.nd[x].len),
    ensures lifts(g, g1, g3, x, Some(n), rest, t2), g1.t == ga.t,
{
    sound_parts(g);
    step_len(g, ga, x, Some(n));
    midg_parts(ga, x, Some(n));
    let p = g.t@.nd[x].par;
    let d = ga.t@.nd[x].len - g.t@.nd[x].len;
    let t2 = bub_step(ga, x, n, d, g2, g3, rest, j);
    assert(g1.real().nd[x] == ga.real().nd[x]);
    assert forall|c: int, i: int| g1.t@.leaf_in(c) && #[trigger] kid_mid(g1.t@, g1.real(), x, Some(n.nd()), c, i) implies kid_mid(t2, g3.real(), p, onds(rest), c, i) by {
        assert(kid_mid(ga.t@, ga.real(), x, Some(n.nd()), c, i));
    }
    t2
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn with_internal_mut_handle_split
%sub maybe_split.and_then(|$s| { $b }) =>> match maybe_split { Some($s) => { $b }, None => None }
    requires
        old(self).sound(), inode_idx.0 < old(self).inodes@.len(), inode_idx.0 != old(self).t@.root(),
        ({
            let p = old(self).t@.nd[inode_idx.0 as int].par;
            idx_in_parent < old(self).t@.nd[p].kids.len() && old(self).t@.nd[p].kids[idx_in_parent as int] == inode_idx.0
        }),
        forall|a: &mut Self| *a == *old(self) ==> #[trigger] fun.requires((a,)),
        forall|a: &mut Self, m: (R, Option<Inode<ARITY, L>>)| #[trigger] fun.ensures((a,), m) && *a == *old(self) ==> stepped(*old(self), *final(a), inode_idx.0 as int, m.1),
    ensures
        exists|a: &mut Self, m: (R, Option<Inode<ARITY, L>>)| *a == *old(self) && #[trigger] fun.ensures((a,), m) && m.0 == r.0
            && lifted(*old(self), *final(a), *final(self), inode_idx.0 as int, m.1, r.1),
%at start
    let ghost g = *self;
    let ghost x = inode_idx.0 as int;
    let ghost p = g.t@.nd[x].par;
    proof {
        at_root(g);
        assert forall|a: &mut Self, m: (R, Option<Inode<ARITY, L>>)| #[trigger] fun.ensures((a,), m) && *a == g implies lenable(g, *final(a), x) by {
            step_len(g, *final(a), x, m.1);
        }
    }
%before let split
    let ghost g1 = *self;
    let ghost mut g2s = g1;
    let ghost s = maybe_split;
    let ghost m = (ret, s);
    let ghost ga = choose|ga: Self| #[trigger] relen(g, ga, g1, x) && exists|a: &mut Self| *a == g && *final(a) == ga && #[trigger] fun.ensures((a,), m);
    proof {
        assert(exists|a: &mut Self| *a == g && #[trigger] fun.ensures((a,), m) && relen(g, *final(a), g1, x));
        assert(stepped(g, ga, x, s));
        step_len(g, ga, x, s);
        midg_parts(ga, x, s);
        assert forall|z: int| 0 <= z < g1.inodes@.len() implies (#[trigger] g1.inodes@[z]).fits() by { assert(ga.inodes@[z].fits()); }
        if s is Some {
            lift_can(g, ga, x, s->Some_0);
            let j = bub_before(ga, x, s->Some_0, ga.t@.nd[x].len - g.t@.nd[x].len);
        }
    }
%after let split_idx
    let ghost g2 = *self;
    proof {
        g2s = g2;
        lift_bubbled(g, ga, g1, g2, x, s->Some_0);
        bub_exact(ga, x, s->Some_0, ga.t@.nd[x].len - g.t@.nd[x].len, g2);
        assert(g2.real().nd[p] == g2.inodes@[p].nd());
    }
%at end
    proof {
        let d = g1.t@.nd[x].len - g.t@.nd[x].len;
        if s is Some {
            let t0 = lift_some(g, ga, g1, g2s, *self, x, s->Some_0, split, idx_in_parent as int);
            let t2 = choose|t2: T| lifts(g, g1, *self, x, s, split, t2);
            self.t@ = t2;
            assert(self.midg(p, split)) by { reveal(Gtree::midg); }
            assert(stepped(g, *self, p, split));
            assert(g1.real().nd[x] == g1.inodes@[x].nd() && ga.real().nd[x] == ga.inodes@[x].nd());
            assert forall|c: int, i: int| ga.t@.leaf_in(c) && #[trigger] kid_mid(ga.t@, ga.real(), x, onds(s), c, i) implies kid_mid(self.t@, self.real(), p, onds(split), c, i) by {
                assert(kid_mid(g1.t@, g1.real(), x, onds(s), c, i));
            }
            assert(self.leaves_kept(ga));
            assert(lifted(g, ga, *self, x, s, split));
        } else {
            self.t@ = g1.t@.with_len(p, g.t@.nd[p].len + d);
            lift_none(g, ga, *self, x);
        }
    }
%raw
/// Where an inode's leaves start.
pub open spec fn starts<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, off: int) -> bool {
    exists|q: int| g.t@.inode_at(g.t@.nd[x].lev, q) && #[trigger] g.t@.lv[g.t@.nd[x].lev][q] == x && off == g.t@.tot(g.t@.nd[x].lev, g.t@.lv[g.t@.nd[x].lev].take(q))
}
/// What's become of the leaf an offset falls in, with what's above `x` yet to know.
pub open spec fn went<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, off: int, p: int, k: usize, v: L, m: (Option<L>, Option<L>), r: ((Option<LeafIdx<L>>, Option<LeafIdx<L>>), Option<Inode<ARITY, L>>)) -> bool {
    &&& g.hit(off, p, k as int)
    &&& put(g.leaves(), g2.leaves(), p, v, m, r.0)
    &&& stepped(g, g2, x, r.1)
    &&& g2.cursor_mid(x, r.1)
}
/// The closure may be called with the leaf an offset falls in.
#[verifier::prophetic]
pub open spec fn can_hit<const ARITY: usize, L: Leaf, F: FnOnce(&mut L, usize) -> (Option<L>, Option<L>)>(g: Gtree<ARITY, L>, off: int, f: F) -> bool {
    &&& forall|p: int, k: usize, a: &mut L| #![trigger g.hit(off, p, k as int), f.requires((a, k))] g.hit(off, p, k as int) && *a == g.leaves()[p].v ==> f.requires((a, k))
}
#[verifier::prophetic]
pub open spec fn hits<const ARITY: usize, L: Leaf, F: FnOnce(&mut L, usize) -> (Option<L>, Option<L>)>(g: Gtree<ARITY, L>, off: int, f: F) -> bool {
    forall|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| #![trigger g.hit(off, p, k as int), f.ensures((a, k), m)] g.hit(off, p, k as int) && *a == g.leaves()[p].v && f.ensures((a, k), m)
        ==> may_put(g.t@.nd[g.t@.root()].len, *a, *final(a), m)
}
/// A child further down.
pub proof fn starts_down<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, off: int, j: int) -> (c: int)
    requires g.sound(), 0 <= x < g.inodes@.len(), starts(g, x, off), 0 <= j < g.t@.nd[x].kids.len(),
    ensures
        c == g.t@.nd[x].kids[j],
        ({
            let t = g.t@;
            let k = t.nd[x].lev;
            let o = off + t.tot(k - 1, t.nd[x].kids.take(j));
            &&& off + t.tot(k - 1, t.nd[x].kids.take(j + 1)) == o + t.len(k - 1, c)
            &&& 0 <= off <= o && o + t.len(k - 1, c) <= t.nd[t.root()].len <= usize::MAX
            &&& 0 <= t.len(k - 1, c)
            &&& k > 1 ==> starts(g, c, o) && 0 <= c < g.inodes@.len() && t.nd[c].lev == k - 1 && c != t.root() && t.nd[c].par == x
            &&& k == 1 ==> t.leaf_in(c) && 0 <= c < g.lnodes@.len() && o == t.pre(t.pos(c)) && t.lpar[c] == x && t.kid_at(c, j) && 0 <= t.pos(c) < t.lv[0].len() && t.lv[0][t.pos(c)] == c
            &&& k >= 1
        }),
{
    let t = g.t@;
    let k = t.nd[x].lev;
    let q = choose|q: int| t.inode_at(k, q) && #[trigger] t.lv[k][q] == x && off == t.tot(k, t.lv[k].take(q));
    let w = at_node(g, x);
    sound_parts(g);
    below(g, k, q, j);
    kid_tot(g, x, j);
    pre_le(g, k, q);
    pre_step(t, k, q);
    let s = t.st(k, q) + j;
    tot_at(t, k - 1, t.lv[k - 1], s);
    pre_le(g, k - 1, s + 1);
    pre_le(g, k - 1, s);
    let c = t.nd[x].kids[j];
    unshape(t);
    assert(t.node_ok(k, x));
    assert(t.par(k - 1, c) == x);
    if k > 1 {
        let wc = at_node(g, c);
        assert(t.inode_at(k - 1, s));
        assert(t.lv[k - 1][s] == c);
        top(t);
        let wr = at_node(g, t.root());
    } else {
        assert(t.lv[0][s] == c);
        let wl = at_leaf(g, s);
        pos_in(t, c);
        no_dup_idx(t.lv[0], s, t.pos(c));
    }
    c
}
/// One inode further up.
pub proof fn went_up<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, ga: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, off: int, p: int, k: usize, v: L, m: (Option<L>, Option<L>), r: ((Option<LeafIdx<L>>, Option<LeafIdx<L>>), Option<Inode<ARITY, L>>), rest: Option<Inode<ARITY, L>>)
    requires went(g, ga, x, off, p, k, v, m, r), lifted(g, ga, g2, x, r.1, rest),
    ensures went(g, g2, g.t@.nd[x].par, off, p, k, v, m, (r.0, rest)),
{
    let px = g.t@.nd[x].par;
    midg_parts(ga, x, r.1);
    midg_parts(g2, px, rest);
    assert(g2.leaves() =~= ga.leaves()) by {
        unshape(ga.t@);
    }
    if ga.cursor is Some {
        let c = ga.cursor->Some_0;
        pos_same(ga.t@, g2.t@, c.leaf_idx.idx as int);
        pos_in(ga.t@, c.leaf_idx.idx as int);
        let p2 = ga.t@.pos(c.leaf_idx.idx as int);
        assert forall|i: int| 0 <= i < ga.t@.lv[0].take(p2).len() implies ga.t@.len(0, #[trigger] ga.t@.lv[0].take(p2)[i]) == g2.t@.len(0, ga.t@.lv[0].take(p2)[i]) by {}
        tot_same(ga.t@, 0, g2.t@, 0, ga.t@.lv[0].take(p2));
    }
}
/// The cursor that's set.
pub proof fn cursor_put<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, p: int, v: L, m: (Option<L>, Option<L>), r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>, Option<Inode<ARITY, L>>), j: int)
    requires g.sound(), 0 <= p < g.t@.lv[0].len(), split_put(g, g2, p, v, m, r, j), may_put(g.t@.nd[g.t@.root()].len, g.leaves()[p].v, v, m),
    ensures
        ({
            let c = g.t@.lv[0][p];
            &&& g2.t@.leaf_in(c) && g2.t@.pos(c) == p && g2.t@.pre(p) == g.t@.pre(p) && g2.lnodes@[c].value == v && 0 <= c < g2.lnodes@.len()
            &&& g2.t@.pre(p) + v.vlen() <= usize::MAX && 0 <= v.vlen()
            &&& r.0 matches Some(n) ==> g2.t@.leaf_in(n.idx as int) && g2.t@.pos(n.idx as int) == p + 1 && g2.t@.pre(p + 1) == g.t@.pre(p) + v.vlen()
        }),
{
    let c = g.t@.lv[0][p];
    let x = g.t@.lpar[c];
    midg_parts(g2, x, r.2);
    sound_parts(g);
    unshape(g2.t@);
    unshape(g.t@);
    leaf_len(g, p);
    assert(g2.t@.lv[0][p] == c);
    sums_mid(g2, x, r.2, p);
    sums_mid(g2, x, r.2, p + 1);
    vsum_same(g.leaves(), g2.leaves(), p);
    assert(g2.leaves()[p].v == v);
    pos_in(g2.t@, c);
    no_dup_idx(g2.t@.lv[0], p, g2.t@.pos(c));
    if r.0 is Some {
        let n = r.0->Some_0;
        assert(g2.t@.lv[0][p + 1] == n.idx);
        pos_in(g2.t@, n.idx as int);
        no_dup_idx(g2.t@.lv[0], p + 1, g2.t@.pos(n.idx as int));
    }
}
/// Nothing but the cursor differs.
pub proof fn cursored<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, g3: Gtree<ARITY, L>, x: int, s: Option<Inode<ARITY, L>>)
    requires stepped(g, g2, x, s), g3 == (Gtree { cursor: g3.cursor, ..g2 }),
    ensures stepped(g, g3, x, s), g3.leaves() == g2.leaves(), g3.real() == g2.real(),
{
    reveal(Gtree::midg);
    same_sound(g3, g2);
    same_real(g3, g2);
}
%file gtree.rs
%free insert_at_offset
    requires
        old(gtree).sound(), in_inode.0 < old(gtree).inodes@.len(),
        starts(*old(gtree), in_inode.0 as int, leaf_offset as int),
        leaf_offset < at_offset <= leaf_offset + old(gtree).t@.nd[in_inode.0 as int].len,
        can_hit(*old(gtree), at_offset as int, insert_with), hits(*old(gtree), at_offset as int, insert_with),
    ensures
        exists|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| *a == old(gtree).leaves()[p].v && #[trigger] insert_with.ensures((a, k), m)
            && #[trigger] went(*old(gtree), *final(gtree), in_inode.0 as int, at_offset as int, p, k, *final(a), m, r),
    decreases old(gtree).t@.nd[in_inode.0 as int].lev,
%closure 0 |gtree: &mut Gtree<N, L>|
    -> (r: ((Option<LeafIdx<L>>, Option<LeafIdx<L>>), Option<Inode<N, L>>))
    requires *old(gtree) == g,
    ensures
        exists|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| *a == g.leaves()[p].v && #[trigger] insert_with.ensures((a, k), m)
            && #[trigger] went(g, *final(gtree), next_idx.0 as int, at_offset as int, p, k, *final(a), m, r),
%closure 1 |leaf: &mut L|
    -> (r: (Option<L>, Option<L>))
    requires leaf_offset <= at_offset, forall|a: &mut L| *a == *old(leaf) ==> #[trigger] insert_with.requires((a, (at_offset - leaf_offset) as usize)),
    ensures exists|a: &mut L| *a == *old(leaf) && *final(a) == *final(leaf) && #[trigger] insert_with.ensures((a, (at_offset - leaf_offset) as usize), r),
%at start
    let ghost g = *gtree;
    let ghost x = in_inode.0 as int;
    let ghost old_offset = leaf_offset as int;
    proof { let w = at_node(g, x); }
%before leaf_offset +=
    let ghost j = child_idx as int;
    let ghost c = g.t@.nd[x].kids[j];
    let ghost p = g.t@.pos(c);
    let ghost k = (at_offset - leaf_offset - offset) as usize;
    proof {
        let c = starts_down(g, x, old_offset, child_idx as int);
        let w = at_node(g, x);
        if g.t@.nd[x].lev == 1 {
            leaf_len(g, p);
            assert(g.hit(at_offset as int, p, k as int));
        }
    }
%before match gtree
    proof {
        if g.t@.nd[x].lev == 1 {
            assert forall|a: &mut L| *a == g.lnodes@[c].value implies #[trigger] insert_with.requires((a, k)) by { assert(*a == g.leaves()[p].v); }
            assert forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] insert_with.ensures((a, k), m) && *a == g.lnodes@[c].value implies may_put(g.t@.nd[g.t@.root()].len, *a, *final(a), m) by { assert(*a == g.leaves()[p].v); }
        }
    }
%after let (inserted_idx
    let ghost g2 = *gtree;
    let ghost rr = (inserted_idx, split_idx, split);
    proof {
        assert(exists|a: &mut L, m: (Option<L>, Option<L>)| *a == g.leaves()[p].v && #[trigger] insert_with.ensures((a, k), m) && #[trigger] split_put(g, g2, p, *final(a), m, rr, j));
        let (a, m) = choose|a: &mut L, m: (Option<L>, Option<L>)| *a == g.leaves()[p].v && #[trigger] insert_with.ensures((a, k), m) && #[trigger] split_put(g, g2, p, *final(a), m, rr, j);
        cursor_put(g, g2, p, *final(a), m, rr, j);
        midg_parts(g2, x, split);
    }
%before ((inserted_idx
    proof {
        cursored(g, g2, *gtree, x, split);
        let (a, m) = choose|a: &mut L, m: (Option<L>, Option<L>)| *a == g.leaves()[p].v && #[trigger] insert_with.ensures((a, k), m) && #[trigger] split_put(g, g2, p, *final(a), m, rr, j);
        assert(went(g, *gtree, x, at_offset as int, p, k, *final(a), m, ((inserted_idx, split_idx), split)));
    }
%at end
    proof {
        if g.t@.nd[x].lev > 1 {
            assert forall|ga: Gtree<N, L>, p: int, k: usize, v: L, m: (Option<L>, Option<L>), r: ((Option<LeafIdx<L>>, Option<LeafIdx<L>>), Option<Inode<N, L>>), rest: Option<Inode<N, L>>|
                #[trigger] went(g, ga, c, at_offset as int, p, k, v, m, r) && #[trigger] lifted(g, ga, *gtree, c, r.1, rest) implies went(g, *gtree, x, at_offset as int, p, k, v, m, (r.0, rest)) by {
                went_up(g, ga, *gtree, c, at_offset as int, p, k, v, m, r, rest);
            }
        }
    }
%raw
pub proof fn went_top<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, s: Option<Inode<ARITY, L>>)
    requires g.sound(), stepped(g, g2, g.t@.root(), s), g2.cursor_mid(g.t@.root(), s),
    ensures
        g2.midg(g2.t@.root(), s), g2.t@.root() == g.t@.root(),
        owes(g2.t@, nowhere(), g2.t@.nd[g.t@.root()].len - g.t@.nd[g.t@.root()].len),
        g2.t@.nd[g2.t@.root()].len <= usize::MAX,
        s is None ==> g2.wf(),
{
    let x = g.t@.root();
    at_root(g);
    let w = at_node(g, x);
    sound_parts(g);
    top(g.t@);
    midg_parts(g2, x, s);
    if s is None {
        almost_parts(g2);
        almost_sound(g2, nowhere(), g2.t@.nd[x].len - g.t@.nd[x].len);
        assert(mid(g2.t@, g2.real(), x, None)) by { reveal(Gtree::midg); }
        mid_none(g2.t@, g2.real(), x);
    }
}
pub proof fn split_cursor<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, n: Inode<ARITY, L>)
    requires
        g.midg(g.t@.root(), Some(n)), g.cursor_mid(g.t@.root(), Some(n)),
        g2.sound(), g2.leaves_kept(g),
        forall|c: int, i: int| g.t@.leaf_in(c) && #[trigger] kid_mid(g.t@, g.real(), g.t@.root(), Some(n.nd()), c, i) ==> g2.t@.kid_at(c, i),
    ensures g2.wf(), g2.leaves() == g.leaves(),
{
    midg_parts(g, g.t@.root(), Some(n));
    sound_parts(g2);
    assert(g2.leaves() =~= g.leaves()) by { unshape(g.t@); }
    if g.cursor is Some {
        let c = g.cursor->Some_0;
        pos_same(g.t@, g2.t@, c.leaf_idx.idx as int);
        pos_in(g.t@, c.leaf_idx.idx as int);
        let p2 = g.t@.pos(c.leaf_idx.idx as int);
        assert forall|i: int| 0 <= i < g.t@.lv[0].take(p2).len() implies g.t@.len(0, #[trigger] g.t@.lv[0].take(p2)[i]) == g2.t@.len(0, g.t@.lv[0].take(p2)[i]) by {}
        tot_same(g.t@, 0, g2.t@, 0, g.t@.lv[0].take(p2));
    }
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn insert_at_offset
%sub insert::insert_at_offset =>> insert_at_offset
    requires
        old(self).sound(), 0 < offset <= old(self).t@.nd[old(self).t@.root()].len,
        can_hit(*old(self), offset as int, insert_with), hits(*old(self), offset as int, insert_with),
    ensures
        final(self).wf(),
        exists|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| *a == old(self).leaves()[p].v && #[trigger] insert_with.ensures((a, k), m)
            && #[trigger] old(self).hit(offset as int, p, k as int) && put(old(self).leaves(), final(self).leaves(), p, *final(a), m, r),
%at start
    let ghost g = *self;
    proof {
        above(g);
        at_root(g);
        let w = at_node(g, g.t@.root());
        assert(g.t@.lv[g.t@.h()][0] == g.t@.root());
        assert(starts(g, g.t@.root(), 0));
    }
%before if let Some(root_split)
    let ghost g1 = *self;
    let ghost ms = maybe_split;
    proof {
        assert(exists|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| *a == g.leaves()[p].v && #[trigger] insert_with.ensures((a, k), m)
            && #[trigger] went(g, g1, g.t@.root(), offset as int, p, k, *final(a), m, (idxs, ms)));
        went_top(g, g1, ms);
    }
%after if let Some(root_split)
    proof {
        if ms is Some { split_cursor(g1, *self, ms->Some_0); }
        assert(exists|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| *a == g.leaves()[p].v && #[trigger] insert_with.ensures((a, k), m)
            && #[trigger] g.hit(offset as int, p, k as int) && put(g.leaves(), self.leaves(), p, *final(a), m, idxs));
    }
%fn insert
    requires
        old(self).wf(), 0 < offset <= old(self).t@.nd[old(self).t@.root()].len,
        can_hit(*old(self), offset as int, insert_with), hits(*old(self), offset as int, insert_with),
    ensures
        final(self).wf(),
        exists|p: int, k: usize, a: &mut L, m: (Option<L>, Option<L>)| *a == old(self).leaves()[p].v && #[trigger] insert_with.ensures((a, k), m)
            && #[trigger] old(self).hit(offset as int, p, k as int) && put(old(self).leaves(), final(self).leaves(), p, *final(a), m, r),
%at start
    let ghost g = *self;
    proof { if self.cursor is Some { leaf_len(g, g.t@.pos(self.cursor->Some_0.leaf_idx.idx as int)); } }
%before return
    proof {
        let c = cursor.leaf_idx.idx as int;
        let p = g.t@.pos(c);
        let k = (offset - cursor.offset) as usize;
        assert(g.hit(offset as int, p, k as int));
        assert forall|a: &mut L| *a == g.lnodes@[c].value implies #[trigger] insert_with.requires((a, k)) by { assert(*a == g.leaves()[p].v); }
        assert forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] insert_with.ensures((a, k), m) && *a == g.lnodes@[c].value implies may_put(g.t@.nd[g.t@.root()].len, *a, *final(a), m) by { assert(*a == g.leaves()[p].v); }
    }
