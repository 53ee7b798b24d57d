// Two leaves at a time, and several leaves at once.
%use gtiter.vx
%raw
/// `slice.iter().copied()`, and that with `enumerate()`.
pub struct VxCopied<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T: Copy> VxCopied<'a, T> {
    pub fn len(&self) -> (r: usize)
        requires self.i <= self.s@.len(),
        ensures r == self.s@.len() - self.i,
    { self.s.len() - self.i }
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, old(self).s@[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { self.i += 1; Some((self.i - 1, self.s[self.i - 1])) } else { None }
    }
}
pub fn vx_copied<'a, T: Copy>(s: &'a [T]) -> (r: VxCopied<'a, T>)
    ensures r.s == s, r.i == 0,
{ VxCopied { s, i: 0 } }
/// Leaves, in the order they're stored in.
pub open spec fn in_order<L>(s: Seq<L>) -> Seq<Lf<L>> { Seq::new(s.len(), |i: int| lf(lx(i as usize), s[i])) }
pub open spec fn upto(n: int) -> Seq<int> { Seq::new(n as nat, |j: int| j) }
pub proof fn vsum_nonneg<L: VxLen>(ls: Seq<Lf<L>>, k: int)
    requires k <= ls.len(), forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).v.vlen() >= 0,
    ensures vsum(ls, k) >= 0,
    decreases k,
{
    if k > 0 { vsum_nonneg(ls, k - 1); assert(ls[k - 1].v.vlen() >= 0); }
}
/// A root whose children are the leaves.
pub open spec fn flat_tree<L: VxLen>(s: Seq<L>, len: int) -> T {
    T {
        nd: seq![Nd { kids: upto(s.len() as int), par: nowhere(), len, lev: 1 }],
        lpar: Seq::new(s.len(), |j: int| 0int),
        llen: Seq::new(s.len(), |j: int| s[j].vlen()),
        lv: seq![upto(s.len() as int), seq![0int]],
    }
}
proof fn flat_tot<L: VxLen>(s: Seq<L>, len: int, k: int)
    requires 0 <= k <= s.len(), s.len() <= usize::MAX,
    ensures flat_tree(s, len).tot(0, upto(s.len() as int).take(k)) == vsum(in_order(s), k),
    decreases k,
{
    let t = flat_tree(s, len);
    if k > 0 {
        flat_tot(s, len, k - 1);
        tot_at(t, 0, upto(s.len() as int), k - 1);
        assert(in_order(s)[k - 1].v == s[k - 1]);
    } else {
        assert(upto(s.len() as int).take(0) =~= Seq::<int>::empty());
    }
}
pub proof fn flat_ok<L: VxLen>(s: Seq<L>, len: int)
    requires 0 < s.len() < nowhere(), len == vsum(in_order(s), s.len() as int), 0 <= len, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).vlen() >= 0,
    ensures ({
        let t = flat_tree(s, len);
        t.shape() && t.all_in() && t.lens_ok() && t.nonneg() && t.root() == 0
    }),
{
    let t = flat_tree(s, len);
    flat_one(t.nd, 0);
    flat_tot(s, len, s.len() as int);
    assert(upto(s.len() as int).take(s.len() as int) =~= upto(s.len() as int));
    assert(t.lv[1] =~= seq![0int]);
    assert(t.lv[0] == upto(s.len() as int));
    assert forall|k: int, q: int| t.inode_at(k, q) implies t.node_ok(k, #[trigger] t.lv[k][q]) by { assert(k == 1 && q == 0); }
    assert(t.shape()) by { reveal(T::shape); }
    assert(t.has(0)) by { assert(t.inode_at(1, 0)); assert(t.lv[t.nd[0].lev][0] == 0); }
}
/// Two leaves have other values.
pub proof fn two_almost<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g2: Gtree<ARITY, L>, p: int, q: int, v: L, w: L)
    requires
        g.sound(), 0 <= p < g.t@.lv[0].len(), 0 <= q < g.t@.lv[0].len(), p != q, v.vlen() >= 0, w.vlen() >= 0,
        g2.inodes == g.inodes, g2.root_idx == g.root_idx,
        g2.lnodes@ == g.lnodes@.update(g.t@.lv[0][p], Lnode { value: v, ..g.lnodes@[g.t@.lv[0][p]] }).update(g.t@.lv[0][q], Lnode { value: w, ..g.lnodes@[g.t@.lv[0][q]] }),
        g2.t@ == g.t@.with_leaf_len(g.t@.lv[0][p], v.vlen()).with_leaf_len(g.t@.lv[0][q], w.vlen()),
        g.t@.nd[g.t@.root()].len + v.vlen() - g.t@.llen[g.t@.lv[0][p]] <= usize::MAX,
    ensures
        ({
            let c = g.t@.lv[0][p];
            let d = g.t@.lv[0][q];
            let x = g.t@.lpar[c];
            let y = g.t@.lpar[d];
            &&& g2.almost()
            &&& forall|z: int| 0 <= z < g.t@.nd.len() ==> #[trigger] g2.t@.off(z) == (if z == x { v.vlen() - g.t@.llen[c] } else { 0 }) + (if z == y { w.vlen() - g.t@.llen[d] } else { 0 })
            &&& rises(g2.t@, x, v.vlen() - g.t@.llen[c])
            &&& 0 <= x < g.t@.nd.len() && 0 <= y < g.t@.nd.len()
            &&& g2.leaves() == g.leaves().update(p, lf(g.leaves()[p].idx, v)).update(q, lf(g.leaves()[q].idx, w))
            &&& g2.t@.root() == g.t@.root() && g2.t@.lv == g.t@.lv && g2.t@.lpar == g.t@.lpar && g2.t@.nd == g.t@.nd
        }),
{
    let t = g.t@;
    let c = t.lv[0][p];
    let d = t.lv[0][q];
    let x = t.lpar[c];
    let e = v.vlen() - t.llen[c];
    let wp = at_leaf(g, p);
    let wq = at_leaf(g, q);
    sound_parts(g);
    unshape(t);
    if c == d { no_dup_idx(t.lv[0], p, q); }
    let t1 = t.with_leaf_len(c, v.vlen());
    with_leaf_len_ok(t, p, v.vlen());
    with_leaf_len_ok(t1, q, w.vlen());
    assert(t1.llen[d] == t.llen[d]);
    assert forall|z: int| 0 <= z < t.nd.len() implies #[trigger] g2.t@.off(z) == (if z == x { e } else { 0 }) + (if z == t.lpar[d] { w.vlen() - t.llen[d] } else { 0 }) by {
        assert(t.off(z) == 0);
        assert(t1.off(z) == t.off(z) + if z == x { e } else { 0 });
    }
    assert(g2.almost()) by {
        reveal(Gtree::almost);
        assert(g2.real().lpar =~= g.real().lpar);
        assert(g2.real().llen =~= g.real().llen.update(c, v.vlen()).update(d, w.vlen()));
        assert(g2.real().nd =~= g.real().nd);
        assert forall|z: int| 0 <= z < g2.t@.llen.len() implies (#[trigger] g2.t@.llen[z]) >= 0 by { assert(z == c || z == d || t.llen[z] >= 0); }
    }
    assert(rises(g2.t@, x, e)) by {
        assert forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev >= t.nd[x].lev implies (#[trigger] t.nd[z]).len + e <= usize::MAX && (t.nd[z].par != nowhere() ==> t.nd[z].len <= t.nd[t.nd[z].par].len) by {
            let w = where_is(t, z);
            anc_le(t, w.0, w.1);
            if t.nd[z].par != nowhere() {
                let a = above_it(t, z);
                assert(t.off(t.nd[z].par) == 0);
                par_le(t, z);
            }
        }
    }
    let ls = g.leaves().update(p, lf(g.leaves()[p].idx, v)).update(q, lf(g.leaves()[q].idx, w));
    assert forall|i: int| 0 <= i < t.lv[0].len() implies #[trigger] g2.leaves()[i] == ls[i] by {
        if i != p { if t.lv[0][i] == c { no_dup_idx(t.lv[0], i, p); } }
        if i != q { if t.lv[0][i] == d { no_dup_idx(t.lv[0], i, q); } }
        let ww = at_leaf(g, i);
    }
    assert(g2.leaves() =~= ls);
}
%file utils.rs
%free get_two_mut
    requires first_idx != second_idx, first_idx < old(slice)@.len(), second_idx < old(slice)@.len(),
    ensures
        *r.0 == old(slice)@[first_idx as int], *r.1 == old(slice)@[second_idx as int],
        final(slice)@ == old(slice)@.update(first_idx as int, *final(r.0)).update(second_idx as int, *final(r.1)),
%file gtree.rs
%impl Gtree<ARITY,L>
%fn from_leaves
%sigsub <I> =>>
%sigsub leaves: I =>> leaves: VxCopied<L>
%sigsub where I: ExactSizeIterator<Item = L>, =>> where L: Copy
%forloops
%sub in leaves.enumerate() =>> in leaves
%sub Vec::with_capacity($n) =>> Vec::<Lnode<L>>::with_capacity($n)
%sub Self { inodes, lnodes, root_idx: $x, cursor: None } =>> Self { inodes, lnodes, root_idx: $x, cursor: None, t: Ghost(flat_tree(s, tot_len as int)) }
    requires
        leaves.i == 0, 0 < leaves.s@.len() <= ARITY, ARITY >= 4, ARITY % 2 == 0,
        forall|i: int| 0 <= i < leaves.s@.len() ==> (#[trigger] leaves.s@[i]).vlen() >= 0,
        tot_len == vsum(in_order(leaves.s@), leaves.s@.len() as int),
    ensures r.wf(), r.cursor is None, r.leaves() == in_order(leaves.s@),
%at start
    let ghost s = leaves.s@;
%loop 0
    invariant
        vx_it.s@ == s, 0 < s.len() <= ARITY, len == s.len(), vx_it.i <= s.len(), root_idx.0 == 0,
        lnodes@.len() == vx_it.i,
        forall|j: int| 0 <= j < vx_it.i ==> (#[trigger] lnodes@[j]).value == s[j] && lnodes@[j].parent.0 == 0,
        forall|j: int| 0 <= j < vx_it.i ==> (#[trigger] inode_children@[j]).idx == j,
    ensures vx_it.i == s.len(),
    decreases s.len() - vx_it.i,
%at loopstart 0
    let ghost was = lnodes@;
    let ghost kids = inode_children@;
%at loopend 0
    proof {
        assert forall|j: int| 0 <= j < vx_it.i implies (#[trigger] lnodes@[j]).value == s[j] && lnodes@[j].parent.0 == 0 by {
            if j < vx_it.i - 1 { assert(lnodes@[j] == was[j]); }
        }
        assert forall|j: int| 0 <= j < vx_it.i implies (#[trigger] inode_children@[j]).idx == j by {
            if j < vx_it.i - 1 { assert(inode_children@[j] == kids[j]); }
        }
    }
%at end
    proof {
        let r = vx_tail;
        let t = flat_tree(s, tot_len as int);
        sizes(r.inodes, r.lnodes);
        vsum_nonneg(in_order(s), s.len() as int);
        flat_ok(s, tot_len as int);
        assert(r.inodes@.len() == 1);
        assert(r.inodes@[0] == inode);
        assert(inode.num_children == s.len());
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] r.inodes@[0].kids()[j] == j by { assert(lnodes@[j].value == s[j]); assert(inode_children@[j].idx == j); }
        assert(r.inodes@[0].kids() =~= upto(s.len() as int));
        assert(r.real().nd =~= t.nd);
        assert(r.real().lpar =~= t.lpar);
        assert(r.real().llen =~= t.llen);
        assert(r.sound()) by { reveal(Gtree::sound); }
        assert(r.leaves() =~= in_order(s));
    }
%fn with_two_mut
    requires
        old(self).sound(), old(self).t@.leaf_in(first_idx.idx as int), old(self).t@.leaf_in(second_idx.idx as int), first_idx.idx != second_idx.idx,
        forall|a: &mut L, b: &mut L| *a == old(self).lnodes@[first_idx.idx as int].value && *b == old(self).lnodes@[second_idx.idx as int].value ==> #[trigger] with_two.requires((a, b)),
        forall|a: &mut L, b: &mut L| #[trigger] with_two.ensures((a, b), ()) && *a == old(self).lnodes@[first_idx.idx as int].value && *b == old(self).lnodes@[second_idx.idx as int].value
            ==> 0 <= (*final(a)).vlen() && 0 <= (*final(b)).vlen() && old(self).t@.nd[old(self).t@.root()].len - (*a).vlen() + (*final(a)).vlen() <= usize::MAX
                && old(self).t@.nd[old(self).t@.root()].len - (*a).vlen() + (*final(a)).vlen() - (*b).vlen() + (*final(b)).vlen() <= usize::MAX,
    ensures
        final(self).sound(), final(self).cursor == old(self).cursor,
        ({
            let p = old(self).t@.pos(first_idx.idx as int);
            let q = old(self).t@.pos(second_idx.idx as int);
            let v = final(self).lnodes@[first_idx.idx as int].value;
            let w = final(self).lnodes@[second_idx.idx as int].value;
            &&& final(self).leaves() == old(self).leaves().update(p, lf(first_idx, v)).update(q, lf(second_idx, w))
            &&& exists|a: &mut L, b: &mut L| *a == old(self).lnodes@[first_idx.idx as int].value && *b == old(self).lnodes@[second_idx.idx as int].value && *final(a) == v && *final(b) == w && #[trigger] with_two.ensures((a, b), ())
        }),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = first_idx.idx as int;
    let ghost d = second_idx.idx as int;
    let ghost p = t.pos(c);
    let ghost q = t.pos(d);
    proof {
        leaf_len(g, p);
        leaf_len(g, q);
        at_root(g);
        sound_parts(g);
        if p < q { pre_le2(g, p + 1, q); }
        if q < p { pre_le2(g, q + 1, p); }
    }
%before self.patch
    let ghost v = self.lnodes@[c].value;
    let ghost w = self.lnodes@[d].value;
    let ghost mut g2 = g;
    proof {
        self.t@ = t.with_leaf_len(c, v.vlen()).with_leaf_len(d, w.vlen());
        g2 = *self;
        two_almost(g, g2, p, q, v, w);
    }
%after self.patch
    proof {
        almost_parts(*self);
        assert forall|z: int| 0 <= z < self.t@.nd.len() implies #[trigger] self.t@.off(z) == if z == t.lpar[d] { w.vlen() - t.llen[d] } else { 0 } by {
            assert(self.t@.off(z) == g2.t@.off(z) + (if z == nowhere() { v.vlen() - t.llen[c] } else { 0 }) - (if z == t.lpar[c] { v.vlen() - t.llen[c] } else { 0 }));
        }
    }
%at end
    proof { assert(self.leaves() =~= g2.leaves()); }
