// New leaves.
%use gtbub.vx
%raw
pub open spec fn shifted(n: int, j: int) -> int { if n > j { j } else { j - n } }
/// `x` has other children, and a length that's right for them.
pub open spec fn regrown(t: T, t2: T, x: int, kids: Seq<int>, len: int) -> bool {
    &&& t2.shape() && t2.all_in() && t2.nonneg()
    &&& t2.nd == t.nd.update(x, Nd { kids, len, ..t.nd[x] })
    &&& t2.root() == t.root() && t2.h() == t.h()
}
/// A leaf more.
pub proof fn one_more(t: T, q: int, j: int, v: int)
    requires can_leaf(t, q, j), t.nonneg(), v >= 0,
    ensures
        ({
            let x = t.lv[1][q];
            let t1 = t.with_leaf(q, j, v);
            let c = t.llen.len() as int;
            &&& 0 <= x < t.nd.len() && t.nd[x].lev == 1
            &&& t1.shape() && t1.all_in() && t1.nonneg()
            &&& t1.lv[1] == t.lv[1] && t1.lv[1][q] == x && t1.inode_at(1, q)
            &&& t1.st(1, q) == t.st(1, q)
            &&& t1.nd == t.nd.update(x, Nd { kids: t.nd[x].kids.insert(j, c), ..t.nd[x] })
            &&& t1.lv[0] == t.lv[0].insert(t.st(1, q) + j, c)
            &&& 0 <= t.st(1, q) && t.st(1, q) + j <= t.lv[0].len()
            &&& t1.lpar == t.lpar.push(x) && t1.llen == t.llen.push(v)
            &&& t1.root() == t.root() && t1.h() == t.h()
            &&& forall|z: int| 0 <= z < t.nd.len() ==> #[trigger] t1.off(z) == t.off(z) + if z == x { v } else { 0 }
        }),
{
    let x = t.lv[1][q];
    let t1 = t.with_leaf(q, j, v);
    let c = t.llen.len() as int;
    with_leaf_ok(t, q, j, v);
    kids_slice(t, 1, q);
    top(t);
    assert(t1.lv[1] == t.lv[1]);
    assert(t1.st(1, q) == t.st(1, q)) by {
        let u = t.lv[1].take(q);
        assert forall|i: int| 0 <= i < u.len() implies t1.nd[#[trigger] u[i]].kids == t.nd[u[i]].kids by {
            unshape(t);
            assert(u[i] == t.lv[1][i]);
            assert(no_dup(t.lv[1]));
            assert(t.lv[1][i] != t.lv[1][q]);
            assert(t.inode_at(1, i));
            assert(t.node_ok(1, t.lv[1][i]));
        }
        flat_cong(t1.nd, t.nd, u);
    }
    assert(t1.nonneg()) by {
        assert forall|z: int| 0 <= z < t1.nd.len() implies (#[trigger] t1.nd[z]).len >= 0 by { assert(t.nd[z].len >= 0); }
        assert forall|z: int| 0 <= z < t1.llen.len() implies #[trigger] t1.llen[z] >= 0 by { if z < c { assert(t.llen[z] >= 0); } }
    }
}
/// Its parent is that much longer.
pub proof fn longer(t: T, t1: T, x: int, kids: Seq<int>, v: int) -> (t2: T)
    requires
        t.shape(), t.all_in(), owes(t, nowhere(), 0), t.nonneg(), 0 <= x < t.nd.len(), t.nd[x].lev == 1,
        t1.shape(), t1.all_in(), t1.nonneg(), v >= 0,
        t1.nd == t.nd.update(x, Nd { kids, ..t.nd[x] }), t1.root() == t.root(), t1.h() == t.h(),
        owes(t1, x, v),
    ensures
        t2 == t1.with_len(x, t.nd[x].len + v),
        regrown(t, t2, x, kids, t.nd[x].len + v),
        owes(t2, t2.nd[x].par, v),
        t2.nd[x].par == t.nd[x].par,
        t2.nd[t2.root()].len + (if t2.nd[x].par == nowhere() { 0 } else { v }) == t.nd[t.root()].len + v,
{
    let t2 = t1.with_len(x, t.nd[x].len + v);
    with_len_ok(t1, x, t.nd[x].len + v);
    not_self(t1, x);
    let w = where_is(t, x);
    not_top(t, w.0, w.1);
    top(t);
    assert(t2.nd =~= t.nd.update(x, Nd { kids, len: t.nd[x].len + v, ..t.nd[x] }));
    assert(t2.nonneg()) by {
        assert forall|z: int| 0 <= z < t2.nd.len() implies (#[trigger] t2.nd[z]).len >= 0 by { assert(t1.nd[z].len >= 0); assert(t.nd[x].len >= 0); }
    }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.off(z) == if z == t2.nd[x].par { v } else { 0 } by {
        assert(t1.off(z) == if z == x { v } else { 0 });
    }
    t2
}
pub proof fn mid_new(t: T, t2: T, rt: T, x: int, kids: Seq<int>, len: int, s: Option<Nd>)
    requires
        regrown(t, t2, x, kids, len), 0 <= x < t.nd.len(), t.nd[x].lev == 1,
        rt.nd.len() == t.nd.len(), rt.lpar == t2.lpar, rt.llen == t2.llen,
        forall|z: int| 0 <= z < t.nd.len() && z != x ==> like(rt.nd[z], #[trigger] t.nd[z]),
        forall|z: int| 0 <= z < t.nd.len() ==> (#[trigger] rt.nd[z]).lev == if t.nd[z].lev == 1 { 1int } else { 2 },
        rt.nd[x].par == t.nd[x].par,
        joint(rt, rt.nd[x], s, kids, len),
    ensures mid(t2, rt, x, s),
{
    reveal(mid);
    assert forall|z: int| 0 <= z < t2.nd.len() && z != x implies like(rt.nd[z], #[trigger] t2.nd[z]) by { assert(t2.nd[z] == t.nd[z]); }
    assert forall|z: int| 0 <= z < t2.nd.len() implies (#[trigger] rt.nd[z]).lev == if t2.nd[z].lev == 1 { 1int } else { 2 } by {}
}
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// `o` with leaves that aren't in it yet.
    pub open spec fn has_more(self, o: Self) -> bool {
        &&& self.inodes == o.inodes && self.root_idx == o.root_idx && self.t == o.t && self.cursor == o.cursor
        &&& self.lnodes@.len() >= o.lnodes@.len()
        &&& forall|c: int| 0 <= c < o.lnodes@.len() ==> #[trigger] self.lnodes@[c] == o.lnodes@[c]
    }
}
/// Enough to put leaves into an inode.
pub proof fn more_exact<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, x: int)
    requires g.sound(), g1.has_more(g), 0 <= x < g.inodes@.len(), g.t@.nd[x].lev == 1,
    ensures
        g1.exact(x), g1.inodes@[x].has_leaves, g1.inodes@[x].kids() == g.t@.nd[x].kids, g1.inodes@[x].num_children == g.t@.nd[x].kids.len(),
        g1.inodes@[x].tot_len == g.t@.nd[x].len, g1.inodes@[x].parent.0 == g.t@.nd[x].par, g1.fits(),
        0 <= g.t@.nd[x].len <= g.t@.nd[g.t@.root()].len,
        g1.real().nd[x].lev == 1,
{
    let w = at_node(g, x);
    let t = g.t@;
    reveal(Gtree::sound);
    kids_slice(t, w.0, w.1);
    assert(t.off(x) == 0);
    let ks = t.nd[x].kids;
    assert(g1.inodes@[x].kids() == g1.inodes@[x].nd().kids);
    assert(g1.real().nd[x] == g1.inodes@[x].nd());
    assert forall|i: int| 0 <= i < ks.len() implies g1.real().len(0, #[trigger] ks[i]) == t.len(0, ks[i]) && g1.lnodes@[ks[i]].value.vlen() >= 0 by {
        assert(g.real().llen[ks[i]] == g.lnodes@[ks[i]].value.vlen());
        assert(g1.lnodes@[ks[i]] == g.lnodes@[ks[i]]);
        assert(t.llen[ks[i]] >= 0);
    }
    tot_cong(g1.real(), t, 0, ks);
    anc_le(t, w.0, w.1);
}
pub proof fn more_mid<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, x: int, t2: T, kids: Seq<int>, v: int, s: Option<Inode<ARITY, L>>)
    requires
        g.sound(), g1.has_more(g), 0 <= x < g.inodes@.len(), g.t@.nd[x].lev == 1,
        g2.same_but(g1, x), g2.fits(), s is Some ==> s->Some_0.fits(),
        regrown(g.t@, t2, x, kids, g.t@.nd[x].len + v),
        t2.lpar == g1.real().lpar, t2.llen == g1.real().llen,
        joint(g1.real(), g2.inodes@[x].nd(), onds(s), kids, g.t@.nd[x].len + v),
    ensures
        mid(t2, g2.real(), x, onds(s)), g2.root_idx.0 == t2.root(),
        g2.real().nd[x] == g2.inodes@[x].nd(), g2.inodes@[x].nd().kids.len() == g2.inodes@[x].num_children,
{
    let t = g.t@;
    let w = at_node(g, x);
    more_exact(g, g1, x);
    real_but(g2, g1, x);
    assert(g1.real().nd =~= g.real().nd);
    assert(g2.real().nd[x] == g2.inodes@[x].nd());
    assert(g2.real().llen == g1.real().llen);
    let rt = g2.real();
    assert forall|i: int| 0 <= i < kids.len() implies g1.real().len(0, #[trigger] kids[i]) == rt.len(0, kids[i]) by {}
    joint_same(g1.real(), rt, rt.nd[x], onds(s), kids, t.nd[x].len + v);
    assert forall|z: int| 0 <= z < t.nd.len() && z != x implies like(rt.nd[z], #[trigger] t.nd[z]) by {
        reveal(Gtree::sound);
        assert(like(g.real().nd[z], t.nd[z]));
        assert(rt.nd[z] == g.real().nd[z]);
    }
    assert forall|z: int| 0 <= z < t.nd.len() implies (#[trigger] rt.nd[z]).lev == if t.nd[z].lev == 1 { 1int } else { 2 } by {
        reveal(Gtree::sound);
        assert(like(g.real().nd[z], t.nd[z]));
        assert(g.real().nd[z] == g.inodes@[z].nd() && g2.real().nd[z] == g2.inodes@[z].nd());
    }
    mid_new(t, t2, rt, x, kids, t.nd[x].len + v, onds(s));
}
/// What the leaves have become.
pub proof fn more_leaves<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g3: Gtree<ARITY, L>, t1: T, p: int)
    requires
        g.almost(), g1.has_more(g), g1.lnodes@.len() == g.lnodes@.len() + 1,
        0 <= p <= g.t@.lv[0].len(),
        t1.lv[0] == g.t@.lv[0].insert(p, g.lnodes@.len() as int),
        g3.t@.lv[0] == t1.lv[0], g3.lnodes@.len() == g1.lnodes@.len(),
        forall|c: int| 0 <= c < g1.lnodes@.len() ==> (#[trigger] g3.lnodes@[c]).value == g1.lnodes@[c].value,
        g.lnodes@.len() < usize::MAX,
    ensures
        g3.leaves() == g.leaves().insert(p, lf(lx(g.lnodes@.len() as usize), g1.lnodes@[g.lnodes@.len() as int].value)),
        fresh(g.leaves(), lx::<L>(g.lnodes@.len() as usize)),
{
    let c = g.lnodes@.len() as int;
    let t = g.t@;
    let want = g.leaves().insert(p, lf(lx(c as usize), g1.lnodes@[c].value));
    almost_parts(g);
    assert forall|i: int| 0 <= i < t.lv[0].len() implies 0 <= (#[trigger] t.lv[0][i]) < c by { unshape(t); }
    assert forall|i: int| 0 <= i < want.len() implies #[trigger] g3.leaves()[i] == want[i] by {
        if i < p {
            assert(g3.t@.lv[0][i] == t.lv[0][i]);
            assert(want[i] == g.leaves()[i]);
        } else if i > p {
            assert(g3.t@.lv[0][i] == t.lv[0][i - 1]);
            assert(want[i] == g.leaves()[i - 1]);
        }
    }
    assert(g3.leaves() =~= want);
    assert forall|i: int| 0 <= i < g.leaves().len() implies (#[trigger] g.leaves()[i]).idx != lx::<L>(c as usize) by {
        assert(t.lv[0][i] < c);
    }
}
/// Where the one that's been inserted is.
pub proof fn kid_mid_at(t: T, rt: T, x: int, s: Option<Nd>, j: int)
    requires mid(t, rt, x, s), t.nd[x].lev == 1, 0 <= j < t.nd[x].kids.len(), t.lpar[t.nd[x].kids[j]] == x,
    ensures kid_mid(t, rt, x, s, t.nd[x].kids[j], shifted(rt.nd[x].kids.len() as int, j)),
{
    mid_kids(t, rt, x, s);
}
pub proof fn leaf_in_at(t: T, p: int)
    requires 0 <= p < t.lv[0].len(),
    ensures t.leaf_in(t.lv[0][p]),
{}
pub proof fn more_leaves2<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, g3: Gtree<ARITY, L>, p: int)
    requires
        g.almost(), g1.has_more(g), g1.lnodes@.len() == g.lnodes@.len() + 2,
        0 <= p <= g.t@.lv[0].len(),
        g3.t@.lv[0] == g.t@.lv[0].insert(p, g.lnodes@.len() as int).insert(p + 1, g.lnodes@.len() as int + 1), g3.lnodes@.len() == g1.lnodes@.len(),
        forall|c: int| 0 <= c < g1.lnodes@.len() ==> (#[trigger] g3.lnodes@[c]).value == g1.lnodes@[c].value,
        g.lnodes@.len() + 1 < usize::MAX,
    ensures
        ({
            let c = g.lnodes@.len() as int;
            &&& g3.leaves() == g.leaves().insert(p, lf(lx(c as usize), g1.lnodes@[c].value)).insert(p + 1, lf(lx((c + 1) as usize), g1.lnodes@[c + 1].value))
            &&& fresh(g.leaves(), lx::<L>(c as usize)) && fresh(g.leaves(), lx::<L>((c + 1) as usize))
        }),
{
    let c = g.lnodes@.len() as int;
    let t = g.t@;
    let want = g.leaves().insert(p, lf(lx(c as usize), g1.lnodes@[c].value)).insert(p + 1, lf(lx((c + 1) as usize), g1.lnodes@[c + 1].value));
    almost_parts(g);
    assert forall|i: int| 0 <= i < t.lv[0].len() implies 0 <= (#[trigger] t.lv[0][i]) < c by { unshape(t); }
    assert forall|i: int| 0 <= i < want.len() implies #[trigger] g3.leaves()[i] == want[i] by {
        if i < p {
            assert(g3.t@.lv[0][i] == t.lv[0][i]);
            assert(want[i] == g.leaves()[i]);
        } else if i > p + 1 {
            assert(g3.t@.lv[0][i] == t.lv[0][i - 2]);
            assert(want[i] == g.leaves()[i - 2]);
        }
    }
    assert(g3.leaves() =~= want);
    assert forall|i: int| 0 <= i < g.leaves().len() implies (#[trigger] g.leaves()[i]).idx != lx::<L>(c as usize) && g.leaves()[i].idx != lx::<L>((c + 1) as usize) by {
        assert(t.lv[0][i] < c);
    }
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn insert_two_leaves_after_leaf
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int), old(self).t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
        0 <= first_leaf.vlen(), 0 <= second_leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + first_leaf.vlen() + second_leaf.vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor,
        r.0 == lx::<L>(old(self).lnodes@.len() as usize), fresh(old(self).leaves(), r.0),
        r.1 == lx::<L>((old(self).lnodes@.len() + 1) as usize), fresh(old(self).leaves(), r.1), r.0 != r.1,
        ({
            let p = old(self).t@.pos(leaf_idx.idx as int);
            &&& final(self).leaves() == old(self).leaves().insert(p + 1, lf(r.0, first_leaf)).insert(p + 2, lf(r.1, second_leaf))
            &&& final(self).t@.lv[0] == old(self).t@.lv[0].insert(p + 1, r.0.idx as int).insert(p + 2, r.1.idx as int)
        }),
        final(self).t@.kid_at(r.0.idx as int, shifted(final(self).inodes@[old(self).t@.lpar[leaf_idx.idx as int]].num_children as int, idx_in_parent + 1)),
        0 <= old(self).t@.lpar[leaf_idx.idx as int] < final(self).inodes@.len(),
        final(self).t@.kid_at(leaf_idx.idx as int, shifted(final(self).inodes@[old(self).t@.lpar[leaf_idx.idx as int]].num_children as int, idx_in_parent as int)),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost v1 = first_leaf.vlen();
    let ghost v2 = second_leaf.vlen();
    let ghost lf1 = first_leaf;
    let ghost lf2 = second_leaf;
    let ghost p = t.pos(leaf_idx.idx as int);
    let ghost w = at_leaf(g, p);
    let ghost q = w.0;
    let ghost j = idx_in_parent + 1;
    let ghost x = t.lpar[leaf_idx.idx as int];
    proof {
        sizes(self.inodes, self.lnodes);
        assert(w.1 == idx_in_parent);
        at_root(g);
        sound_parts(g);
    }
%after let second_idx
    let ghost g1 = *self;
    let ghost c = first_idx.idx as int;
    let ghost kids1 = t.nd[x].kids.insert(j, c);
    let ghost kids = kids1.insert(j + 1, c + 1);
    proof {
        sizes(self.inodes, self.lnodes);
        more_exact(g, g1, x);
        assert(g1.lnodes@[c].value == lf1);
        assert(g1.lnodes@[c + 1].value == lf2);
        assert(g1.real().llen[c] == v1);
        assert(g1.real().llen[c + 1] == v2);
    }
%after let maybe_split
    let ghost g2 = *self;
    let ghost rest = maybe_split;
    let ghost t1 = t.with_leaf(q, j, v1).with_leaf(q, j + 1, v2);
    proof {
        one_more(t, q, j, v1);
        let ta = t.with_leaf(q, j, v1);
        assert(ta.llen.len() == c + 1);
        one_more(ta, q, j + 1, v2);
        assert(t1.nd =~= t.nd.update(x, Nd { kids, ..t.nd[x] }));
        assert(owes(t1, x, v1 + v2)) by {
            assert forall|z: int| 0 <= z < t1.nd.len() implies #[trigger] t1.off(z) == if z == x { v1 + v2 } else { 0 } by { assert(t.off(z) == 0); assert(ta.off(z) == if z == x { v1 } else { 0 }); }
        }
        let t2 = longer(t, t1, x, kids, v1 + v2);
        assert(t2.lpar =~= g1.real().lpar && t2.llen =~= g1.real().llen) by {
            reveal(Gtree::sound);
        }
        more_mid(g, g1, g2, x, t2, kids, v1 + v2, rest);
        self.t@ = t2;
        assert(self.real() == g2.real());
        assert(self.midg(x, rest)) by { reveal(Gtree::midg); }
        kid_mid_at(t2, self.real(), x, onds(rest), j);
        kid_mid_at(t2, self.real(), x, onds(rest), j - 1);
        leaf_in_at(t2, p);
        assert(t1.lv[0] == t.lv[0].insert(p + 1, c).insert(p + 2, c + 1));
        leaf_in_at(t2, p + 1);
        assert(t1.lv[0][p + 1] == c);
    }
%at end
    proof {
        more_leaves2(g, g1, *self, p + 1);
    }
%fn insert_leaf_after_leaf
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int), old(self).t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
        0 <= leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + leaf.vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor,
        r == lx::<L>(old(self).lnodes@.len() as usize), fresh(old(self).leaves(), r),
        final(self).leaves() == old(self).leaves().insert(old(self).t@.pos(leaf_idx.idx as int) + 1, lf(r, leaf)),
        final(self).t@.lv[0] == old(self).t@.lv[0].insert(old(self).t@.pos(leaf_idx.idx as int) + 1, r.idx as int),
        final(self).t@.kid_at(r.idx as int, shifted(final(self).inodes@[old(self).t@.lpar[leaf_idx.idx as int]].num_children as int, idx_in_parent + 1)),
        0 <= old(self).t@.lpar[leaf_idx.idx as int] < final(self).inodes@.len(),
        final(self).t@.kid_at(leaf_idx.idx as int, shifted(final(self).inodes@[old(self).t@.lpar[leaf_idx.idx as int]].num_children as int, idx_in_parent as int)),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost v = leaf.vlen();
    let ghost lf0 = leaf;
    let ghost p = t.pos(leaf_idx.idx as int);
    let ghost w = at_leaf(g, p);
    let ghost q = w.0;
    let ghost j = idx_in_parent + 1;
    let ghost x = t.lpar[leaf_idx.idx as int];
    proof {
        sizes(self.inodes, self.lnodes);
        assert(w.1 == idx_in_parent);
        at_root(g);
        sound_parts(g);
    }
%after let inserted_idx
    let ghost g1 = *self;
    let ghost c = inserted_idx.idx as int;
    let ghost kids = t.nd[x].kids.insert(j, c);
    proof {
        more_exact(g, g1, x);
        assert(g1.lnodes@[c].value == lf0);
        assert(g1.real().llen[c] == v);
    }
%after let maybe_split
    let ghost g2 = *self;
    let ghost rest = maybe_split;
    let ghost t1 = t.with_leaf(q, j, v);
    proof {
        one_more(t, q, j, v);
        assert(owes(t1, x, v)) by {
            assert forall|z: int| 0 <= z < t1.nd.len() implies #[trigger] t1.off(z) == if z == x { v } else { 0 } by { assert(t.off(z) == 0); }
        }
        let t2 = longer(t, t1, x, kids, v);
        assert(t2.lpar == g1.real().lpar && t2.llen == g1.real().llen) by {
            reveal(Gtree::sound);
        }
        more_mid(g, g1, g2, x, t2, kids, v, rest);
        self.t@ = t2;
        assert(self.real() == g2.real());
        assert(self.midg(x, rest)) by { reveal(Gtree::midg); }
        kid_mid_at(t2, self.real(), x, onds(rest), j);
        kid_mid_at(t2, self.real(), x, onds(rest), j - 1);
        leaf_in_at(t2, p);
        leaf_in_at(t2, t.st(1, q) + j);
    }
%before self.bubble
    let ghost g3 = *self;
%at end
    proof {
        more_leaves(g, g1, *self, t1, p + 1);
    }
%fn insert_leaf_before_leaf
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int), old(self).t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
        0 <= leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + leaf.vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor,
        r == lx::<L>(old(self).lnodes@.len() as usize), fresh(old(self).leaves(), r),
        final(self).leaves() == old(self).leaves().insert(old(self).t@.pos(leaf_idx.idx as int), lf(r, leaf)),
        final(self).t@.lv[0] == old(self).t@.lv[0].insert(old(self).t@.pos(leaf_idx.idx as int), r.idx as int),
        final(self).t@.kid_at(r.idx as int, shifted(final(self).inodes@[old(self).t@.lpar[leaf_idx.idx as int]].num_children as int, idx_in_parent as int)),
        0 <= old(self).t@.lpar[leaf_idx.idx as int] < final(self).inodes@.len(), final(self).inodes@[old(self).t@.lpar[leaf_idx.idx as int]].num_children > 0,
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost v = leaf.vlen();
    let ghost lf0 = leaf;
    let ghost p = t.pos(leaf_idx.idx as int);
    let ghost w = at_leaf(g, p);
    let ghost q = w.0;
    let ghost j = idx_in_parent as int;
    let ghost x = t.lpar[leaf_idx.idx as int];
    proof {
        sizes(self.inodes, self.lnodes);
        assert(w.1 == idx_in_parent);
        at_root(g);
        sound_parts(g);
    }
%after let inserted_idx
    let ghost g1 = *self;
    let ghost c = inserted_idx.idx as int;
    let ghost kids = t.nd[x].kids.insert(j, c);
    proof {
        more_exact(g, g1, x);
        assert(g1.lnodes@[c].value == lf0);
        assert(g1.real().llen[c] == v);
    }
%after let maybe_split
    let ghost g2 = *self;
    let ghost rest = maybe_split;
    let ghost t1 = t.with_leaf(q, j, v);
    proof {
        one_more(t, q, j, v);
        assert(owes(t1, x, v)) by {
            assert forall|z: int| 0 <= z < t1.nd.len() implies #[trigger] t1.off(z) == if z == x { v } else { 0 } by { assert(t.off(z) == 0); }
        }
        let t2 = longer(t, t1, x, kids, v);
        assert(t2.lpar == g1.real().lpar && t2.llen == g1.real().llen) by {
            reveal(Gtree::sound);
        }
        more_mid(g, g1, g2, x, t2, kids, v, rest);
        self.t@ = t2;
        assert(self.real() == g2.real());
        assert(self.midg(x, rest)) by { reveal(Gtree::midg); }
        kid_mid_at(t2, self.real(), x, onds(rest), j);
        leaf_in_at(t2, t.st(1, q) + j);
    }
%at end
    proof {
        more_leaves(g, g1, *self, t1, p);
        let ww = at_node(*self, x);
    }
