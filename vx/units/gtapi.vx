// The tree's functions.
%use gtleaf.vx
%raw
/// `Option::and_then`, `Option::unwrap_or_else`
pub fn vx_and_then<A, B, F: FnOnce(A) -> Option<B>>(o: Option<A>, f: F) -> (r: Option<B>)
    requires o is Some ==> f.requires((o->Some_0,)),
    ensures o is Some ==> f.ensures((o->Some_0,), r), o is None ==> r is None,
{ match o { Some(a) => f(a), None => None } }
pub fn vx_or_else<A, F: FnOnce() -> A>(o: Option<A>, f: F) -> (r: A)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o->Some_0, o is None ==> f.ensures((), r),
{ match o { Some(a) => a, None => f() } }
/// `a.append(b).unwrap()`
pub fn vx_join<L: Leaf>(a: &mut L, b: L)
    requires L::can_join(*old(a), b), 0 <= old(a).vlen(), 0 <= b.vlen(),
    ensures *final(a) == L::joined(*old(a), b),
{ let _ = a.append(b); }
pub proof fn vsum_same<L: VxLen>(a: Seq<Lf<L>>, b: Seq<Lf<L>>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).v.vlen() == b[i].v.vlen(),
    ensures vsum(a, k) == vsum(b, k),
    decreases k,
{
    if k > 0 { vsum_same(a, b, k - 1); assert(a[k - 1].v.vlen() == b[k - 1].v.vlen()); }
}
pub proof fn fresh_up<L>(a: Seq<Lf<L>>, p: int, x: Lf<L>, idx: LeafIdx<L>)
    requires 0 <= p < a.len(), x.idx == a[p].idx, fresh(a.update(p, x), idx),
    ensures fresh(a, idx),
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).idx != idx by { assert(a.update(p, x)[i].idx == a[i].idx); }
}
pub proof fn set_sum<L: VxLen>(a: Seq<Lf<L>>, p: int, x: Lf<L>, k: int)
    requires 0 <= p < a.len(), k <= a.len(),
    ensures vsum(a.update(p, x), k) == vsum(a, k) + if p < k { x.v.vlen() - a[p].v.vlen() } else { 0 },
    decreases k,
{
    if k > 0 { set_sum(a, p, x, k - 1); }
}
/// What a closure may leave and return.
pub open spec fn may_put<L: VxLen>(len: int, a: L, v: L, m: (Option<L>, Option<L>)) -> bool {
    &&& 0 <= v.vlen()
    &&& m.0 is None ==> m.1 is None
    &&& m.0 is Some ==> 0 <= m.0->Some_0.vlen()
    &&& m.1 is Some ==> 0 <= m.1->Some_0.vlen()
    &&& len - a.vlen() + v.vlen() + (if m.0 is Some { m.0->Some_0.vlen() } else { 0 }) + (if m.1 is Some { m.1->Some_0.vlen() } else { 0 }) <= usize::MAX
}
pub proof fn one_leaf(t: T)
    requires
        t.nd.len() == 1, t.nd[0] == (Nd { kids: seq![0int], par: nowhere(), len: t.llen[0], lev: 1 }), t.lpar == seq![0int], t.llen.len() == 1, t.llen[0] >= 0,
        t.lv == seq![seq![0int], seq![0int]],
    ensures t.shape(), t.all_in(), t.lens_ok(), t.nonneg(), t.root() == 0,
{
    flat_one(t.nd, 0);
    tot_one(t, 0, 0);
    assert(t.lv[1] =~= seq![0int]);
    assert(t.lv[0] =~= seq![0int]);
    assert forall|k: int, q: int| t.inode_at(k, q) implies t.node_ok(k, #[trigger] t.lv[k][q]) by { assert(k == 1 && q == 0); }
    assert(t.shape()) by { reveal(T::shape); }
    assert(t.has(0)) by { assert(t.inode_at(1, 0)); assert(t.lv[t.nd[0].lev][0] == 0); }
}
/// What's before a leaf, from what the leaves are.
pub proof fn pre_is<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, p: int, off: int)
    requires g.sound(), 0 <= p < g.leaves().len(), off == vsum(g.leaves(), p),
    ensures
        off == g.t@.pre(p), 0 <= g.t@.lv[0][p] < g.lnodes@.len(), g.t@.leaf_in(g.t@.lv[0][p]), g.t@.pos(g.t@.lv[0][p]) == p, g.leaves()[p].idx.idx == g.t@.lv[0][p],
{
    let w = at_leaf(g, p);
    sums(g, p);
    leaf_len(g, p);
}
pub proof fn first_kid<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>)
    requires g.sound(),
    ensures g.t@.kid_at(g.t@.lv[0][0], 0), g.t@.leaf_in(g.t@.lv[0][0]), g.t@.pos(g.t@.lv[0][0]) == 0,
{
    leaf_facts(g);
    let w = at_leaf(g, 0);
    assert(g.t@.kid_at(g.t@.lv[0][0], w.1));
}
pub proof fn same_sound<const ARITY: usize, L: Leaf>(a: Gtree<ARITY, L>, b: Gtree<ARITY, L>)
    requires a.inodes == b.inodes, a.lnodes == b.lnodes, a.root_idx == b.root_idx, a.t == b.t,
    ensures a.sound() == b.sound(), a.leaves() == b.leaves(), a.almost() == b.almost(),
{
    reveal(Gtree::sound);
    reveal(Gtree::almost);
    same_real(a, b);
    assert(a.leaves() =~= b.leaves());
}
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
    /// An offset is `k` into the `p`-th leaf.
    pub open spec fn hit(self, offset: int, p: int, k: int) -> bool {
        0 <= p < self.leaves().len() && k > 0 && offset == vsum(self.leaves(), p) + k && offset <= vsum(self.leaves(), p + 1)
    }
    /// Where a leaf is.
    pub open spec fn found(self, c: int, off: int, j: int) -> bool {
        self.t@.leaf_in(c) && off == self.t@.pre(self.t@.pos(c)) && self.t@.kid_at(c, j)
    }
}
pub proof fn leaf_len<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, p: int)
    requires g.sound(), 0 <= p < g.t@.lv[0].len(),
    ensures
        ({
            let c = g.t@.lv[0][p];
            &&& 0 <= c < g.lnodes@.len() && g.lnodes@.len() == g.t@.llen.len()
            &&& g.lnodes@[c].value.vlen() == g.t@.llen[c] && g.leaves()[p].v == g.lnodes@[c].value && g.leaves()[p].idx.idx == c
            &&& g.leaves().len() == g.t@.lv[0].len()
            &&& 0 <= g.t@.llen[c] <= g.t@.nd[g.t@.root()].len <= usize::MAX
            &&& g.t@.pre(p + 1) == g.t@.pre(p) + g.t@.llen[c]
            &&& vsum(g.leaves(), p) == g.t@.pre(p) && vsum(g.leaves(), p + 1) == g.t@.pre(p + 1)
            &&& 0 <= g.t@.pre(p) && g.t@.pre(p + 1) <= g.t@.nd[g.t@.root()].len
            &&& vsum(g.leaves(), g.leaves().len() as int) == g.t@.nd[g.t@.root()].len
            &&& 0 <= g.t@.lpar[c] < g.inodes@.len() && g.lnodes@[c].parent.0 == g.t@.lpar[c] && g.inodes@.len() == g.t@.nd.len()
        }),
{
    let w = at_leaf(g, p);
    sums(g, p);
    sums(g, p + 1);
    leaf_facts(g);
    pre_le(g, 0, p);
    pre_le(g, 0, p + 1);
    tot_at(g.t@, 0, g.t@.lv[0], p);
    sizes(g.inodes, g.lnodes);
    idx_by(g, p, lx(g.t@.lv[0][p] as usize));
    at_root(g);
    let w = at_node(g, g.t@.lpar[g.t@.lv[0][p]]);
}
/// What's before a leaf is no longer than what's before one after it.
pub proof fn pre_le2<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, p: int, q: int)
    requires g.sound(), 0 <= p <= q <= g.leaves().len(),
    ensures vsum(g.leaves(), p) <= vsum(g.leaves(), q),
    decreases q,
{
    leaf_facts(g);
    if p < q { pre_le2(g, p, q - 1); leaf_len(g, q - 1); }
}
/// A leaf has another value.
pub proof fn set_almost<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, p: int, v: L)
    requires
        g.sound(), 0 <= p < g.t@.lv[0].len(), v.vlen() >= 0,
        g1.inodes == g.inodes, g1.root_idx == g.root_idx,
        g1.lnodes@ == g.lnodes@.update(g.t@.lv[0][p], Lnode { value: v, ..g.lnodes@[g.t@.lv[0][p]] }),
        g1.t@ == g.t@.with_leaf_len(g.t@.lv[0][p], v.vlen()),
    ensures
        g1.almost(), owes(g1.t@, g.t@.lpar[g.t@.lv[0][p]], v.vlen() - g.t@.llen[g.t@.lv[0][p]]),
        g1.leaves() == g.leaves().update(p, lf(g.leaves()[p].idx, v)),
        g1.t@.root() == g.t@.root(), g1.t@.lv == g.t@.lv, g1.t@.lpar == g.t@.lpar, g1.t@.nd == g.t@.nd,
        v.vlen() == g.t@.llen[g.t@.lv[0][p]] ==> g1.sound(),
        g.t@.llen[g.t@.lv[0][p]] <= g.t@.nd[g.t@.root()].len,
{
    let t = g.t@;
    let c = t.lv[0][p];
    let w = at_leaf(g, p);
    sound_parts(g);
    with_leaf_len_ok(t, p, v.vlen());
    assert forall|z: int| 0 <= z < t.nd.len() implies #[trigger] g1.t@.off(z) == if z == t.lpar[c] { v.vlen() - t.llen[c] } else { 0 } by { assert(t.off(z) == 0); }
    assert(g1.almost()) by {
        reveal(Gtree::almost);
        assert(g1.real().lpar =~= g.real().lpar);
        assert(g1.real().llen =~= g.real().llen.update(c, v.vlen()));
        assert(g1.real().nd =~= g.real().nd);
        assert forall|z: int| 0 <= z < g1.t@.llen.len() implies (#[trigger] g1.t@.llen[z]) >= 0 by { assert(z == c || t.llen[z] >= 0); }
    }
    assert forall|i: int| 0 <= i < t.lv[0].len() implies #[trigger] g1.leaves()[i] == g.leaves().update(p, lf(g.leaves()[p].idx, v))[i] by {
        unshape(t);
        if i != p { if t.lv[0][i] == c { no_dup_idx(t.lv[0], i, p); } let ww = at_leaf(g, i); }
    }
    assert(g1.leaves() =~= g.leaves().update(p, lf(g.leaves()[p].idx, v)));
    if v.vlen() == t.llen[c] { almost_sound(g1, t.lpar[c], 0); }
    sums(g, p);
    sums(g, p + 1);
    leaf_facts(g);
    pre_le(g, 0, p);
    pre_le(g, 0, p + 1);
}
/// A place in its parent is the same.
pub proof fn kid_same(t: T, t2: T, p: int, j: int)
    requires t.shape(), t.all_in(), lens_only(t, t2), t2.shape(), 0 <= p < t.lv[0].len(),
    ensures t.kid_at(t.lv[0][p], j) == t2.kid_at(t2.lv[0][p], j), t2.leaf_in(t.lv[0][p]), t2.pos(t.lv[0][p]) == p, t.pos(t.lv[0][p]) == p,
{
    let c = t.lv[0][p];
    assert(t.leaf_in(c));
    pos_in(t, c);
    pos_same(t, t2, c);
    unshape(t);
    no_dup_idx(t.lv[0], p, t.pos(c));
}
%file gtree.rs
%impl Gtree<ARITY,L>
%fn with_leaf_mut
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] with_leaf.requires((a,)),
        forall|a: &mut L| #[trigger] with_leaf.ensures((a,), ()) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> 0 <= (*final(a)).vlen() && old(self).t@.nd[old(self).t@.root()].len - (*a).vlen() + (*final(a)).vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor,
        ({
            let p = old(self).t@.pos(leaf_idx.idx as int);
            let v = final(self).lnodes@[leaf_idx.idx as int].value;
            &&& final(self).leaves() == old(self).leaves().update(p, lf(leaf_idx, v))
            &&& exists|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value && *final(a) == v && #[trigger] with_leaf.ensures((a,), ())
        }),
        lens_only(old(self).t@, final(self).t@), final(self).nums_kept(*old(self)),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof {
        leaf_len(g, p);
        at_root(g);
    }
%before let new_len
    let ghost v = lnode.value;
%before if old_len
    let ghost t1 = t.with_leaf_len(c, v.vlen());
    let ghost mut g1 = g;
%before self.patch
    proof {
        self.t@ = t1;
        g1 = *self;
        set_almost(g, g1, p, v);
        assert(t.llen[c] == old_len);
    }
%at end
    proof {
        if old_len == new_len {
            assert(t1.llen =~= t.llen);
            g1 = *self;
            set_almost(g, g1, p, v);
        } else {
            sound_parts(*self);
            assert(self.leaves() =~= g1.leaves());
        }
    }
%fn with_last_leaf_mut
    requires
        old(self).sound(),
        forall|a: &mut L| *a == old(self).leaves().last().v ==> #[trigger] with_leaf.requires((a,)),
        forall|a: &mut L| #[trigger] with_leaf.ensures((a,), ()) && *a == old(self).leaves().last().v
            ==> 0 <= (*final(a)).vlen() && old(self).t@.nd[old(self).t@.root()].len - (*a).vlen() + (*final(a)).vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor,
        ({
            let p = old(self).leaves().len() - 1;
            let v = final(self).leaves()[p].v;
            &&& old(self).leaves().len() > 0
            &&& final(self).leaves() == old(self).leaves().update(p, lf(old(self).leaves()[p].idx, v))
            &&& exists|a: &mut L| *a == old(self).leaves()[p].v && *final(a) == v && #[trigger] with_leaf.ensures((a,), ())
        }),
%at start
    let ghost g = *self;
    proof { leaf_facts(g); leaf_len(g, g.t@.lv[0].len() - 1); let w = at_leaf(g, g.t@.lv[0].len() - 1); }
%fn append
    requires
        old(self).sound(), 0 <= leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + leaf.vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor, fresh(old(self).leaves(), r),
        final(self).leaves() == old(self).leaves().push(lf(r, leaf)),
%at start
    let ghost g = *self;
    let ghost l0 = leaf;
    proof { let n = g.t@.lv[0].len() - 1; leaf_facts(g); let w = at_leaf(g, n); }
%at end
    proof { let n = g.leaves().len() as int; assert(g.leaves().insert(n, lf(vx_tail, l0)) =~= g.leaves().push(lf(vx_tail, l0))); }
%fn prepend
    requires
        old(self).sound(), 0 <= leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + leaf.vlen() <= usize::MAX,
    ensures
        final(self).wf(), fresh(old(self).leaves(), r),
        final(self).leaves() == old(self).leaves().insert(0, lf(r, leaf)),
%at start
    let ghost g = *self;
    proof { leaf_facts(g); first_kid(g); }
%after let leaf_idx
    let ghost g1 = *self;
%at end
    proof {
        same_sound(*self, g1);
        assert(self.leaves() =~= g1.leaves());
        pre_is(*self, 0, 0);
    }
%fn insert_leaf_after_another
%sub self.cursor.and_then($f).unwrap_or_else($g) =>> vx_or_else(vx_and_then(self.cursor, $f), $g)
    requires
        old(self).wf(), old(self).t@.leaf_in(after_leaf.idx as int),
        0 <= leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + leaf.vlen() <= usize::MAX,
    ensures
        final(self).wf(), fresh(old(self).leaves(), r.1),
        final(self).leaves() == old(self).leaves().insert(old(self).t@.pos(after_leaf.idx as int) + 1, lf(r.1, leaf)),
        r.0 == old(self).t@.pre(old(self).t@.pos(after_leaf.idx as int) + 1),
%closure 0 |cursor: Cursor<L>|
    -> (r: Option<(usize, usize)>)
    ensures r == if after_leaf == cursor.leaf_idx { Some((cursor.offset, cursor.child_idx)) } else { None },
%closure 1 ||
    -> (r: (usize, usize))
    requires self.wf(), self.t@.leaf_in(after_leaf.idx as int),
    ensures self.found(after_leaf.idx as int, r.0 as int, r.1 as int),
%at start
    let ghost g = *self;
    let ghost p = g.t@.pos(after_leaf.idx as int);
    proof { leaf_len(g, p); }
%before let new_cursor_offset
    proof { assert(self.found(after_leaf.idx as int, leaf_offset as int, idx_in_parent as int)); }
%after let leaf_idx
    let ghost g1 = *self;
    proof {
        vsum_same(g.leaves(), g1.leaves(), p + 1);
        idx_by(g, p, after_leaf);
        pre_is(g1, p + 1, new_cursor_offset as int);
    }
%at end
    proof { same_sound(*self, g1); }
%fn append_leaf_to_another
%sub self.cursor.and_then($f).unwrap_or_else($g) =>> vx_or_else(vx_and_then(self.cursor, $f), $g)
%sub append_to.append(leaf).unwrap() =>> vx_join(append_to, leaf)
    requires
        old(self).wf(), old(self).t@.leaf_in(append_to.idx as int),
        L::can_join(old(self).lnodes@[append_to.idx as int].value, leaf),
        0 <= leaf.vlen(), old(self).t@.nd[old(self).t@.root()].len + leaf.vlen() <= usize::MAX,
    ensures
        final(self).wf(),
        ({
            let p = old(self).t@.pos(append_to.idx as int);
            &&& final(self).leaves() == old(self).leaves().update(p, lf(append_to, L::joined(old(self).leaves()[p].v, leaf)))
            &&& r == old(self).t@.pre(p)
        }),
%closure 0 |cursor: Cursor<L>|
    -> (r: Option<(usize, usize)>)
    ensures r == if append_to == cursor.leaf_idx { Some((cursor.offset, cursor.child_idx)) } else { None },
%closure 1 ||
    -> (r: (usize, usize))
    requires self.wf(), self.t@.leaf_in(append_to.idx as int),
    ensures self.found(append_to.idx as int, r.0 as int, r.1 as int),
%closure 2 |append_to: &mut L|
    -> (r: ())
    requires L::can_join(*old(append_to), leaf), 0 <= old(append_to).vlen(), 0 <= leaf.vlen(),
    ensures *final(append_to) == L::joined(*old(append_to), leaf),
%at start
    let ghost g = *self;
    let ghost c = append_to.idx as int;
    let ghost p = g.t@.pos(c);
    proof { leaf_len(g, p); let w = at_leaf(g, p); }
%before self.with_leaf_mut
    proof {
        assert(self.found(append_to.idx as int, leaf_offset as int, idx_in_parent as int));
        L::joins(g.lnodes@[c].value, leaf);
    }
%after self.with_leaf_mut
    let ghost g1 = *self;
    proof {
        sound_parts(g);
        sound_parts(g1);
        kid_same(g.t@, g1.t@, p, idx_in_parent as int);
        vsum_same(g.leaves(), g1.leaves(), p);
        leaf_facts(g1);
        pre_is(g1, p, leaf_offset as int);
    }
%at end
    proof { same_sound(*self, g1); }
%fn split_leaf
    requires
        old(self).sound(), old(self).t@.leaf_in(leaf_idx.idx as int),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] split_with.requires((a,)),
        forall|a: &mut L, b: L| #[trigger] split_with.ensures((a,), b) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> 0 <= (*final(a)).vlen() && 0 <= b.vlen() && (*final(a)).vlen() + b.vlen() == (*a).vlen(),
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor, fresh(old(self).leaves(), r),
        ({
            let p = old(self).t@.pos(leaf_idx.idx as int);
            let v = final(self).leaves()[p].v;
            let b = final(self).leaves()[p + 1].v;
            &&& final(self).leaves() == old(self).leaves().update(p, lf(leaf_idx, v)).insert(p + 1, lf(r, b))
            &&& exists|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value && *final(a) == v && #[trigger] split_with.ensures((a,), b)
        }),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof {
        leaf_len(g, p);
        at_root(g);
        let w = at_leaf(g, p);
        let wn = at_node(g, t.lpar[c]);
        kid_tot(g, t.lpar[c], w.1);
    }
%before let new_len
    let ghost v = lnode.value;
%after let new_len
    let ghost t1 = t.with_leaf_len(c, v.vlen());
    let ghost mut g1 = g;
%before self.patch
    proof {
        self.t@ = t1;
        g1 = *self;
        set_almost(g, g1, p, v);
    }
%before let idx_in_parent
    let ghost g2 = *self;
    proof {
        if old_len == new_len {
            assert(t1.llen =~= t.llen);
            g1 = *self;
            set_almost(g, g1, p, v);
        } else {
            sound_parts(*self);
            assert(self.leaves() =~= g1.leaves());
        }
        sound_parts(g);
        sound_parts(g2);
        kid_same(t, g2.t@, p, 0);
        let w = at_leaf(g2, p);
        let wn = at_node(g2, g2.t@.lpar[c]);
        assert(g2.inodes@[g2.t@.lpar[c]].kids()[w.1] == c);
        leaf_facts(g2);
        leaf_len(g2, p);
        at_root(g2);
        set_sum(g.leaves(), p, lf(leaf_idx, v), g.leaves().len() as int);
    }
%at end
    proof { fresh_up(g.leaves(), p, lf(leaf_idx, v), vx_tail); }
%fn split_leaf_with_another
%sub self.cursor.and_then($f).unwrap_or_else($g) =>> vx_or_else(vx_and_then(self.cursor, $f), $g)
    requires
        old(self).wf(), old(self).t@.leaf_in(leaf_idx.idx as int),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] split_with.requires((a,)),
        forall|a: &mut L, b: (L, L)| #[trigger] split_with.ensures((a,), b) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> 0 <= (*final(a)).vlen() && 0 <= b.0.vlen() && 0 <= b.1.vlen() && (*final(a)).vlen() + b.1.vlen() == (*a).vlen() && old(self).t@.nd[old(self).t@.root()].len + b.0.vlen() <= usize::MAX,
    ensures
        final(self).wf(),
        ({
            let p = old(self).t@.pos(leaf_idx.idx as int);
            let v = final(self).leaves()[p].v;
            let b = (final(self).leaves()[p + 1].v, final(self).leaves()[p + 2].v);
            &&& put(old(self).leaves(), final(self).leaves(), p, v, (Some(b.0), Some(b.1)), (Some(r.1), Some(r.2)))
            &&& r.0 == old(self).t@.pre(p) + v.vlen()
            &&& exists|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value && *final(a) == v && #[trigger] split_with.ensures((a,), b)
        }),
%closure 0 |cursor: Cursor<L>|
    -> (r: Option<(usize, usize)>)
    ensures r == if leaf_idx == cursor.leaf_idx { Some((cursor.offset, cursor.child_idx)) } else { None },
%closure 1 ||
    -> (r: (usize, usize))
    requires self.wf(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures self.found(leaf_idx.idx as int, r.0 as int, r.1 as int),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof {
        leaf_len(g, p);
        at_root(g);
        let w = at_leaf(g, p);
    }
%before let lnode
    proof { assert(self.found(leaf_idx.idx as int, leaf_offset as int, idx_in_parent as int)); }
%before let new_len
    let ghost v = lnode.value;
%after let new_len
    let ghost t1 = t.with_leaf_len(c, v.vlen());
    let ghost la = inserted_leaf;
    let ghost lb = split_leaf;
%before self.patch
    let ghost g1 = Gtree { t: Ghost(t1), ..*self };
    proof {
        self.t@ = t1;
        same_sound(*self, g1);
        set_almost(g, *self, p, v);
    }
%after self.patch
    let ghost g2 = *self;
    proof {
        sound_parts(*self);
        assert(self.leaves() =~= g1.leaves());
        sound_parts(g);
        kid_same(t, g2.t@, p, idx_in_parent as int);
        leaf_facts(g2);
        leaf_len(g2, p);
        at_root(g2);
        set_sum(g.leaves(), p, lf(leaf_idx, v), g.leaves().len() as int);
    }
%after let (inserted_idx
    let ghost g3 = *self;
    proof {
        vsum_same(g.leaves(), g3.leaves(), p);
        assert(vsum(g3.leaves(), p + 1) == vsum(g3.leaves(), p) + v.vlen());
        leaf_facts(g3);
        pre_is(g3, p + 1, new_cursor_offset as int);
    }
%at end
    proof {
        same_sound(*self, g3);
        fresh_up(g.leaves(), p, lf(leaf_idx, v), vx_tail.1);
        fresh_up(g.leaves(), p, lf(leaf_idx, v), vx_tail.2);
    }
%fn new
%sub Self { inodes, lnodes, root_idx, cursor: None } =>> Self { inodes, lnodes, root_idx, cursor: None, t: Ghost(arbitrary()) }
    ensures r.inodes == inodes, r.lnodes == lnodes, r.root_idx == root_idx, r.cursor is None,
%fn uninit
    ensures r.inodes@.len() == 0, r.lnodes@.len() == 0, r.cursor is None,
%fn initialize
    requires old(self).inodes@.len() == 0, old(self).lnodes@.len() == 0, old(self).cursor is None, 0 <= first_leaf.vlen() <= usize::MAX, ARITY >= 4, ARITY % 2 == 0,
    ensures final(self).wf(), final(self).leaves() == seq![lf(r, first_leaf)],
%at start
    let ghost l0 = first_leaf;
%before let root
    let ghost g1 = *self;
%before self.root_idx
    proof {
        assert(root.kids() == root.nd().kids);
        assert(root.kids().len() == root.num_children);
        assert(self.real().llen[0] == l0.vlen());
    }
%at end
    proof {
        let n = Nd { kids: seq![0int], par: nowhere(), len: l0.vlen(), lev: 1 };
        let t = T { nd: seq![n], lpar: seq![0int], llen: seq![l0.vlen()], lv: seq![seq![0int], seq![0int]] };
        assert(self.real().nd =~= t.nd);
        assert(self.real().llen =~= t.llen);
        assert(self.real().lpar =~= t.lpar);
        one_leaf(t);
        self.t@ = t;
        assert(self.sound()) by { reveal(Gtree::sound); }
        assert(self.leaves() =~= seq![lf(leaf_idx, l0)]);
    }
%fn from_first_leaf
    requires 0 <= first_leaf.vlen() <= usize::MAX, ARITY >= 4, ARITY % 2 == 0,
    ensures r.0.wf(), r.0.leaves() == seq![lf(r.1, first_leaf)],
%fn update_child_idx_after_inserting_after
    requires old_parent.0 < self.inodes@.len(),
    ensures r == shifted(self.inodes@[old_parent.0 as int].num_children as int, old_idx as int),
%fn insert_at_leaf
    requires
        old(self).sound(), old(self).found(leaf_idx.idx as int, leaf_offset as int, idx_in_parent as int), insert_at_offset > 0,
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] insert_with.requires((a, insert_at_offset)),
        forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] insert_with.ensures((a, insert_at_offset), m) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> may_put(old(self).t@.nd[old(self).t@.root()].len, *a, *final(a), m),
    ensures
        final(self).wf(),
        exists|a: &mut L, m: (Option<L>, Option<L>)| *a == old(self).lnodes@[leaf_idx.idx as int].value && #[trigger] insert_with.ensures((a, insert_at_offset), m)
            && put(old(self).leaves(), final(self).leaves(), old(self).t@.pos(leaf_idx.idx as int), *final(a), m, r),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof {
        leaf_len(g, p);
        at_root(g);
        let w = at_leaf(g, p);
    }
%before let new_len
    let ghost v = lnode.value;
    let ghost more = (first, second);
%before self.patch
    let ghost t1 = t.with_leaf_len(c, v.vlen());
    let ghost g1 = Gtree { t: Ghost(t1), ..*self };
    proof {
        self.t@ = t1;
        same_sound(*self, g1);
        set_almost(g, *self, p, v);
    }
%after self.patch
    let ghost g2 = *self;
    proof {
        sound_parts(*self);
        assert(self.leaves() =~= g1.leaves());
        sound_parts(g);
        kid_same(t, g2.t@, p, idx_in_parent as int);
        leaf_facts(g2);
        leaf_len(g2, p);
        at_root(g2);
        set_sum(g.leaves(), p, lf(leaf_idx, v), g.leaves().len() as int);
        let wn = at_node(g2, g2.t@.lpar[c]);
    }
%before self.cursor
    let ghost g3 = *self;
    let ghost idxs = (first_idx, second_idx);
    proof {
        if first_idx is Some { fresh_up(g.leaves(), p, lf(leaf_idx, v), first_idx->Some_0); }
        if second_idx is Some { fresh_up(g.leaves(), p, lf(leaf_idx, v), second_idx->Some_0); }
        assert(put(g.leaves(), g3.leaves(), p, v, more, (first_idx, second_idx)));
        vsum_same(g.leaves(), g3.leaves(), p);
        leaf_facts(g3);
        pre_is(g3, p, leaf_offset as int);
        if first_idx is Some {
            assert(vsum(g3.leaves(), p + 1) == vsum(g3.leaves(), p) + v.vlen());
            pre_is(g3, p + 1, leaf_offset + new_len);
            leaf_len(g3, p);
        }
    }
%at end
    proof { same_sound(*self, g3); }
