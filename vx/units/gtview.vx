// What the tree in memory is a picture of.
%use gtnode.vx
%use gtvoc.vx
%raw
pub open spec fn like(a: Nd, b: Nd) -> bool {
    a.kids == b.kids && a.par == b.par && a.len == b.len && (a.lev == 1) == (b.lev == 1)
}
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// What's in memory, as a tree without levels.
    pub open spec fn real(self) -> T {
        T {
            nd: Seq::new(self.inodes@.len(), |x: int| self.inodes@[x].nd()),
            lpar: Seq::new(self.lnodes@.len(), |c: int| self.lnodes@[c].parent.0 as int),
            llen: Seq::new(self.lnodes@.len(), |c: int| self.lnodes@[c].value.vlen()),
            lv: Seq::empty(),
        }
    }
    pub open spec fn fits(self) -> bool {
        &&& ARITY >= 4 && ARITY % 2 == 0
        &&& forall|x: int| 0 <= x < self.inodes@.len() ==> (#[trigger] self.inodes@[x]).fits()
    }
    pub open spec fn rep(self) -> bool {
        &&& self.fits()
        &&& self.real().nd.len() == self.t@.nd.len()
        &&& forall|x: int| 0 <= x < self.t@.nd.len() ==> like(self.real().nd[x], #[trigger] self.t@.nd[x])
        &&& self.real().lpar == self.t@.lpar
        &&& self.real().llen == self.t@.llen
        &&& self.root_idx.0 == self.t@.root()
    }
    #[verifier::opaque]
    pub open spec fn sound(self) -> bool {
        self.t@.shape() && self.t@.all_in() && self.t@.lens_ok() && self.t@.nonneg() && self.rep()
    }
    pub open spec fn cursor_ok(self) -> bool {
        match self.cursor {
            None => true,
            Some(c) => {
                &&& self.t@.leaf_in(c.leaf_idx.idx as int)
                &&& c.offset == self.t@.tot(0, self.t@.lv[0].take(self.t@.pos(c.leaf_idx.idx as int)))
                &&& self.t@.kid_at(c.leaf_idx.idx as int, c.child_idx as int)
            },
        }
    }
    pub open spec fn wf(self) -> bool { self.sound() && self.cursor_ok() }
    pub open spec fn leaves(self) -> Seq<Lf<L>> {
        Seq::new(self.t@.lv[0].len(), |i: int| lf(lx(self.t@.lv[0][i] as usize), self.lnodes@[self.t@.lv[0][i]].value))
    }
}
impl T {
    pub open spec fn leaf_in(self, c: int) -> bool {
        exists|p: int| 0 <= p < self.lv[0].len() && #[trigger] self.lv[0][p] == c
    }
    pub open spec fn pos(self, c: int) -> int {
        choose|p: int| 0 <= p < self.lv[0].len() && #[trigger] self.lv[0][p] == c
    }
    pub open spec fn kid_at(self, c: int, j: int) -> bool {
        0 <= j < self.nd[self.lpar[c]].kids.len() && self.nd[self.lpar[c]].kids[j] == c
    }
}
/// An inode, in memory and in its place.
pub proof fn at_node<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int) -> (r: (int, int))
    requires g.sound(), 0 <= x < g.inodes@.len(),
    ensures
        g.inodes@.len() == g.t@.nd.len(), g.lnodes@.len() == g.t@.llen.len(),
        r.0 == g.t@.nd[x].lev, r.0 >= 1, g.t@.inode_at(r.0, r.1), g.t@.lv[r.0][r.1] == x, g.t@.node_ok(r.0, x),
        g.inodes@[x].fits(),
        g.inodes@[x].kids() == g.t@.nd[x].kids, g.inodes@[x].tot_len == g.t@.nd[x].len, g.inodes@[x].parent.0 == g.t@.nd[x].par,
        g.inodes@[x].has_leaves == (r.0 == 1), g.inodes@[x].num_children == g.t@.nd[x].kids.len(),
        forall|j: int| 0 <= j < g.t@.nd[x].kids.len() ==> #[trigger] g.inodes@[x].kid(j) == g.t@.nd[x].kids[j],
        no_dup(g.t@.nd[x].kids),
        r.0 == 1 ==> forall|j: int| 0 <= j < g.t@.nd[x].kids.len() ==> 0 <= (#[trigger] g.t@.nd[x].kids[j]) < g.lnodes@.len(),
        r.0 > 1 ==> forall|j: int| 0 <= j < g.t@.nd[x].kids.len() ==> {
            &&& 0 <= (#[trigger] g.t@.nd[x].kids[j]) < g.inodes@.len()
            &&& g.t@.nd[g.t@.nd[x].kids[j]].lev == r.0 - 1
        },
        x == g.root_idx.0 <==> r.0 == g.t@.h(),
        g.t@.nd[x].par == nowhere() <==> r.0 == g.t@.h(),
        r.0 < g.t@.h() ==> 0 <= g.t@.nd[x].par < g.inodes@.len(),
        g.root_idx.0 == g.t@.root(),
{
    reveal(Gtree::sound);
    let w = where_is(g.t@, x);
    kids_slice(g.t@, w.0, w.1);
    not_top(g.t@, w.0, w.1);
    assert(like(g.real().nd[x], g.t@.nd[x]));
    assert(g.real().nd[x] == g.inodes@[x].nd());
    assert(g.real().llen.len() == g.lnodes@.len());
    assert(g.inodes@[x].kids().len() == g.inodes@[x].num_children);
    assert forall|j: int| 0 <= j < g.t@.nd[x].kids.len() implies #[trigger] g.inodes@[x].kid(j) == g.t@.nd[x].kids[j] by {
        assert(g.inodes@[x].kids()[j] == g.inodes@[x].kid(j));
    }
    if w.0 > 1 {
        assert forall|j: int| 0 <= j < g.t@.nd[x].kids.len() implies 0 <= (#[trigger] g.t@.nd[x].kids[j]) < g.inodes@.len() && g.t@.nd[g.t@.nd[x].kids[j]].lev == w.0 - 1 by {
            assert(g.t@.node_ok(w.0 - 1, g.t@.nd[x].kids[j]));
        }
    }
    w
}
/// The root is there.
pub proof fn at_root<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>)
    requires g.sound(),
    ensures
        g.root_idx.0 == g.t@.root(), 0 <= g.t@.root() < g.inodes@.len(), g.t@.h() >= 1, g.t@.nd[g.t@.root()].lev == g.t@.h(),
        g.t@.nd[g.t@.root()].len == g.t@.tot(0, g.t@.lv[0]),
        g.inodes@.len() == g.t@.nd.len(), g.lnodes@.len() == g.t@.llen.len(),
        g.t@.lv[g.t@.h()].len() == 1,
{
    reveal(Gtree::sound);
    top(g.t@);
    root_len(g.t@);
    assert(g.real().llen.len() == g.lnodes@.len());
}
/// A leaf, in memory and in its place: the `r.1`-th child of the `r.0`-th of those of height 1.
pub proof fn at_leaf<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, p: int) -> (r: (int, int))
    requires g.sound(), 0 <= p < g.t@.lv[0].len(),
    ensures
        ({
            let c = g.t@.lv[0][p];
            let x = g.t@.lpar[c];
            &&& 0 <= c < g.lnodes@.len()
            &&& g.lnodes@[c].parent.0 == x
            &&& g.lnodes@[c].value.vlen() == g.t@.llen[c]
            &&& 0 <= g.t@.llen[c] <= g.t@.nd[x].len
            &&& 0 <= x < g.inodes@.len()
            &&& g.t@.nd[x].lev == 1
            &&& g.t@.inode_at(1, r.0) && g.t@.lv[1][r.0] == x
            &&& 0 <= r.1 < g.t@.nd[x].kids.len() && g.t@.nd[x].kids[r.1] == c
            &&& g.t@.st(1, r.0) + r.1 == p
            &&& g.t@.pos(c) == p
            &&& g.t@.leaf_in(c)
            &&& forall|j: int| g.t@.kid_at(c, j) <==> j == r.1
        }),
        g.t@.at(0, p),
{
    reveal(Gtree::sound);
    let t = g.t@;
    let c = t.lv[0][p];
    assert(t.shape());
    unshape(t);
    top(t);
    assert(t.at(0, p));
    let r = locate(t, 0, p);
    let x = t.lpar[c];
    assert(g.real().llen.len() == g.lnodes@.len() && g.real().lpar.len() == g.lnodes@.len());
    assert(g.real().lpar[c] == g.lnodes@[c].parent.0);
    assert(g.real().llen[c] == g.lnodes@[c].value.vlen());
    let w = at_node(g, x);
    assert(t.at(w.0, w.1) && t.at(1, r.0));
    one_place(t, 0, t.pos(c), p);
    kid_tot(g, x, r.1);
    assert forall|j: int| t.kid_at(c, j) implies j == r.1 by { no_dup_idx(t.nd[x].kids, j, r.1); }
    r
}
/// The lengths of an inode's children.
pub proof fn kid_tot<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, x: int, j: int)
    requires g.sound(), 0 <= x < g.inodes@.len(), 0 <= j < g.t@.nd[x].kids.len(),
    ensures
        ({
            let t = g.t@;
            let k = t.nd[x].lev - 1;
            let ks = t.nd[x].kids;
            &&& 0 <= t.tot(k, ks.take(j)) <= t.tot(k, ks.take(j + 1)) <= t.nd[x].len
            &&& t.tot(k, ks.take(j + 1)) == t.tot(k, ks.take(j)) + t.len(k, ks[j])
            &&& t.tot(k, ks) == t.nd[x].len
            &&& ks.take(ks.len() as int) == ks
            &&& k == 0 ==> g.lnodes@[ks[j]].value.vlen() == t.llen[ks[j]]
            &&& k > 0 ==> g.inodes@[ks[j]].tot_len == t.nd[ks[j]].len
            &&& 0 <= t.len(k, ks[j])
        }),
        g.t@.nd[x].len <= usize::MAX,
{
    let w = at_node(g, x);
    reveal(Gtree::sound);
    let t = g.t@;
    let k = t.nd[x].lev - 1;
    let ks = t.nd[x].kids;
    assert(t.off(x) == 0);
    assert(ks.take(ks.len() as int) =~= ks);
    tot_at(t, k, ks, j);
    assert forall|i: int| 0 <= i < ks.len() implies t.len(k, #[trigger] ks[i]) >= 0 by {
        if k > 0 { assert(t.nd[ks[i]].len >= 0); } else { assert(t.llen[ks[i]] >= 0); }
    }
    let a = ks.take(j);
    let b = ks.skip(j + 1);
    assert forall|i: int| 0 <= i < a.len() implies t.len(k, #[trigger] a[i]) >= 0 by { assert(a[i] == ks[i]); }
    assert forall|i: int| 0 <= i < b.len() implies t.len(k, #[trigger] b[i]) >= 0 by { assert(b[i] == ks[j + 1 + i]); }
    tot_nonneg(t, k, a);
    tot_nonneg(t, k, b);
    if k == 0 {
        assert(g.real().llen[ks[j]] == g.lnodes@[ks[j]].value.vlen());
    } else {
        assert(like(g.real().nd[ks[j]], t.nd[ks[j]]));
    }
}
/// Leaves by their index.
pub proof fn by_idx<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, idx: LeafIdx<L>)
    requires g.sound(), has_idx(g.leaves(), idx),
    ensures
        ({
            let p = at_idx(g.leaves(), idx);
            &&& 0 <= p < g.t@.lv[0].len() && g.leaves().len() == g.t@.lv[0].len()
            &&& g.t@.lv[0][p] == idx.idx
            &&& g.t@.pos(idx.idx as int) == p
            &&& g.t@.leaf_in(idx.idx as int)
            &&& g.leaves()[p].v == g.lnodes@[idx.idx as int].value
        }),
{
    let p = at_idx(g.leaves(), idx);
    assert(0 <= p < g.leaves().len() && g.leaves()[p].idx == idx);
    reveal(Gtree::sound);
    unshape(g.t@);
    assert(g.t@.lv[0][p] == idx.idx);
    let r = at_leaf(g, p);
}
pub proof fn idx_by<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, p: int, idx: LeafIdx<L>)
    requires g.sound(), 0 <= p < g.t@.lv[0].len(), g.t@.lv[0][p] == idx.idx,
    ensures has_idx(g.leaves(), idx), at_idx(g.leaves(), idx) == p, g.leaves()[p].idx == idx, g.leaves().len() == g.t@.lv[0].len(), g.leaves()[p].v == g.lnodes@[idx.idx as int].value,
{
    reveal(Gtree::sound);
    unshape(g.t@);
    assert(g.leaves()[p].idx == idx);
    by_idx(g, idx);
}
pub proof fn sums<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, i: int)
    requires g.sound(), 0 <= i <= g.t@.lv[0].len(),
    ensures vsum(g.leaves(), i) == g.t@.tot(0, g.t@.lv[0].take(i)),
    decreases i,
{
    if i > 0 {
        sums(g, i - 1);
        tot_at(g.t@, 0, g.t@.lv[0], i - 1);
        let r = at_leaf(g, i - 1);
    }
}
/// What the leaves are like.
pub proof fn leaf_facts<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>)
    requires g.sound(),
    ensures
        distinct(g.leaves()),
        g.leaves().len() > 0, g.leaves().len() == g.t@.lv[0].len(),
        vsum(g.leaves(), g.leaves().len() as int) == g.t@.nd[g.t@.root()].len,
        0 <= vsum(g.leaves(), g.leaves().len() as int) <= usize::MAX,
        forall|i: int| 0 <= i < g.leaves().len() ==> (#[trigger] g.leaves()[i]).idx.idx as int != nowhere(),
        forall|i: int| 0 <= i <= g.leaves().len() ==> #[trigger] vsum(g.leaves(), i) == g.t@.tot(0, g.t@.lv[0].take(i)),
{
    let t = g.t@;
    at_root(g);
    assert(t.shape()) by { reveal(Gtree::sound); }
    ends(t, 0);
    assert(t.lv[0].take(t.lv[0].len() as int) =~= t.lv[0]);
    sums(g, t.lv[0].len() as int);
    let w = at_node(g, t.root());
    kid_tot(g, t.root(), 0);
    assert forall|i: int, j: int| 0 <= i < j < g.leaves().len() implies (#[trigger] g.leaves()[i]).idx != (#[trigger] g.leaves()[j]).idx by {
        unshape(t);
        assert(no_dup(t.lv[0]));
        assert(t.lv[0][i] != t.lv[0][j]);
    }
    assert forall|i: int| 0 <= i < g.leaves().len() implies (#[trigger] g.leaves()[i]).idx.idx as int != nowhere() by {
        unshape(t);
        let r = at_leaf(g, i);
    }
    assert forall|i: int| 0 <= i <= g.leaves().len() implies #[trigger] vsum(g.leaves(), i) == t.tot(0, t.lv[0].take(i)) by { sums(g, i); }
}
