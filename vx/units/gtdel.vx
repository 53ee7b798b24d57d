// Deleting from the tree.
%use gtiter.vx
%use urange.vx
%raw
pub uninterp spec fn seen<L, F>(f: F) -> Seq<L>;
/// Calling `before_delete`. It's what RunTree gives, and total.
#[verifier::external_body]
pub fn vx_before<L, F: FnMut(&L)>(f: &mut F, leaf: &L)
    ensures seen::<L, F>(*final(f)) == seen::<L, F>(*old(f)).push(*leaf),
{ f(leaf) }
pub assume_specification<T> [core::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
/// `&slice[..to]`
pub fn vx_upto<'a, T>(s: &'a [T], to: usize) -> (r: &'a [T])
    requires to <= s@.len(),
    ensures r@ == s@.take(to as int),
{
    vstd::slice::slice_subrange(s, 0, to)
}
/// `.iter().rev().enumerate()`
pub struct VxRev<'a, T> { pub s: &'a [T], pub i: usize }
pub fn vx_rev_enum<'a, T>(s: &'a [T]) -> (r: VxRev<'a, T>)
    ensures r.s == s, r.i == 0,
{ VxRev { s, i: 0 } }
impl<'a, T> VxRev<'a, T> {
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).i <= old(self).s@.len(),
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, &old(self).s@[old(self).s@.len() - 1 - old(self).i])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() {
            let k = self.i;
            self.i = k + 1;
            Some((k, &self.s[self.s.len() - 1 - k]))
        } else { None }
    }
}
/// A leaf's siblings: those next to it in the sequence of leaves.
pub proof fn beside<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, c: int, j: int, i: int)
    requires g.sound(), g.t@.leaf_in(c), g.t@.kid_at(c, j), 0 <= i < g.t@.nd[g.t@.lpar[c]].kids.len(),
    ensures
        ({
            let t = g.t@;
            let p = t.pos(c);
            let x = t.lpar[c];
            let d = t.nd[x].kids[i];
            &&& 0 <= p < t.lv[0].len() && t.lv[0][p] == c && 0 <= c < g.lnodes@.len()
            &&& 0 <= x < g.inodes@.len() && g.inodes@[x].has_leaves && g.inodes@[x].kids() == t.nd[x].kids && g.inodes@[x].num_children == t.nd[x].kids.len()
            &&& g.inodes@[x].fits() && g.lnodes@[c].parent.0 == x
            &&& 0 <= p - j + i < t.lv[0].len() && t.lv[0][p - j + i] == d
            &&& t.leaf_in(d) && t.pos(d) == p - j + i && t.kid_at(d, i) && 0 <= d < g.lnodes@.len() && t.lpar[d] == x
            &&& g.lnodes@[d].value.vlen() == t.llen[d] && 0 <= t.llen[d] <= usize::MAX
        }),
{
    let t = g.t@;
    let p = t.pos(c);
    let x = t.lpar[c];
    let w = at_leaf(g, p);
    let v = at_node(g, x);
    below(g, 1, w.0, i);
    let q = t.st(1, w.0) + i;
    let u = at_leaf(g, q);
    one_at(g, 1, w.0, v.0, v.1);
    assert(t.node_ok(1, x));
    let d = t.nd[x].kids[i];
    assert(t.par(0, d) == x);
    leaf_len(g, q);
}
/// A leaf has another value, no longer and no shorter.
pub proof fn set_same<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, p: int, v: L)
    requires
        g.sound(), 0 <= p < g.t@.lv[0].len(), v.vlen() == g.t@.llen[g.t@.lv[0][p]],
        g1.inodes == g.inodes, g1.root_idx == g.root_idx, g1.t == g.t,
        g1.lnodes@ == g.lnodes@.update(g.t@.lv[0][p], Lnode { value: v, ..g.lnodes@[g.t@.lv[0][p]] }),
    ensures
        g1.sound(), g1.leaves() == g.leaves().update(p, lf(g.leaves()[p].idx, v)),
{
    leaf_len(g, p);
    assert(g.t@.with_leaf_len(g.t@.lv[0][p], v.vlen()).llen =~= g.t@.llen);
    set_almost(g, g1, p, v);
}
/// ...when lengths of inodes are yet to be made right.
pub proof fn set_same_almost<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, g1: Gtree<ARITY, L>, p: int, v: L)
    requires
        g.almost(), 0 <= p < g.t@.lv[0].len(), 0 <= g.t@.lv[0][p] < g.lnodes@.len(), v.vlen() == g.lnodes@[g.t@.lv[0][p]].value.vlen(),
        g1.inodes == g.inodes, g1.root_idx == g.root_idx, g1.t == g.t,
        g1.lnodes@ == g.lnodes@.update(g.t@.lv[0][p], Lnode { value: v, ..g.lnodes@[g.t@.lv[0][p]] }),
    ensures
        g1.almost(), g1.leaves() == g.leaves().update(p, lf(g.leaves()[p].idx, v)),
{
    let t = g.t@;
    almost_parts(g);
    unshape(t);
    assert(g1.almost()) by {
        reveal(Gtree::almost);
        assert(g1.real().lpar =~= g.real().lpar);
        assert(g1.real().llen =~= g.real().llen);
        assert(g1.real().nd =~= g.real().nd);
    }
    assert forall|i: int| 0 <= i < t.lv[0].len() implies #[trigger] g1.leaves()[i] == g.leaves().update(p, lf(g.leaves()[p].idx, v))[i] by {
        if i != p { if t.lv[0][i] == t.lv[0][p] { no_dup_idx(t.lv[0], i, p); } }
        assert(0 <= t.lv[0][i] < g.lnodes@.len());
    }
    assert(g1.leaves() =~= g.leaves().update(p, lf(g.leaves()[p].idx, v)));
}
/// The leaves are as before but for the lengths of inodes.
pub proof fn same_leaves<const ARITY: usize, L: Leaf>(a: Gtree<ARITY, L>, b: Gtree<ARITY, L>)
    requires a.lnodes == b.lnodes, a.t@.lv == b.t@.lv,
    ensures a.leaves() == b.leaves(),
{
    assert(a.leaves() =~= b.leaves());
}
%file gtree.rs
%alias Range URange
%impl Gtree<ARITY,L>
%fn leaf_mut
    requires idx.idx < old(self).lnodes@.len(),
    ensures
        *r == old(self).lnodes@[idx.idx as int].value,
        final(self).lnodes@ == old(self).lnodes@.update(idx.idx as int, Lnode { value: *final(r), ..old(self).lnodes@[idx.idx as int] }),
        final(self).inodes == old(self).inodes, final(self).root_idx == old(self).root_idx, final(self).cursor == old(self).cursor, final(self).t == old(self).t,
%fn next_sibling
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int), self.t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
    ensures
        r matches Some(n) ==> {
            let p = self.t@.pos(leaf_idx.idx as int);
            &&& p + 1 < self.t@.lv[0].len() && self.t@.lv[0][p + 1] == n.idx && self.t@.leaf_in(n.idx as int) && self.t@.pos(n.idx as int) == p + 1
        },
%at start
    proof {
        let n = self.t@.nd[self.t@.lpar[leaf_idx.idx as int]].kids.len();
        beside(*self, leaf_idx.idx as int, idx_in_parent as int, idx_in_parent as int);
        if idx_in_parent + 1 < n { beside(*self, leaf_idx.idx as int, idx_in_parent as int, idx_in_parent + 1); }
    }
%fn prev_sibling
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int), self.t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
    ensures
        r matches Some(n) ==> {
            let p = self.t@.pos(leaf_idx.idx as int);
            &&& p > 0 && self.t@.lv[0][p - 1] == n.idx && self.t@.leaf_in(n.idx as int) && self.t@.pos(n.idx as int) == p - 1
        },
%at start
    proof {
        beside(*self, leaf_idx.idx as int, idx_in_parent as int, idx_in_parent as int);
        if idx_in_parent > 0 { beside(*self, leaf_idx.idx as int, idx_in_parent as int, idx_in_parent - 1); }
    }
%fn prev_non_empty_sibling
%forloops
%sub leaf_idxs[..$n].iter().rev().enumerate() =>> vx_rev_enum(vx_upto(leaf_idxs, $n))
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int), self.t@.kid_at(leaf_idx.idx as int, idx_in_parent as int),
    ensures
        r matches Some(n) ==> {
            let t = self.t@;
            let p = t.pos(leaf_idx.idx as int);
            let q = t.pos(n.0.idx as int);
            &&& t.leaf_in(n.0.idx as int) && t.kid_at(n.0.idx as int, n.1 as int) && q < p
            &&& t.pre(q + 1) == t.pre(p) && t.pre(q) + t.llen[n.0.idx as int] == t.pre(p) && t.llen[n.0.idx as int] > 0
            &&& 0 <= n.0.idx < self.lnodes@.len() && self.lnodes@[n.0.idx as int].value.vlen() == t.llen[n.0.idx as int] && 0 <= t.pre(q)
        },
%at start
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof { beside(*self, c, idx_in_parent as int, idx_in_parent as int); }
%loop 0
    invariant_except_break
        vx_found is None,
        t.pre(p - vx_it.i) == t.pre(p),
    invariant
        self.sound(), t == self.t@, c == leaf_idx.idx, p == t.pos(c), t.leaf_in(c), t.kid_at(c, idx_in_parent as int),
        vx_it.i <= vx_it.s@.len(), vx_it.s@.len() == idx_in_parent,
        forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == t.nd[t.lpar[c]].kids[j],
    ensures
        vx_found matches Some(n) ==> {
            let n: (LeafIdx<L>, usize) = n;
            let q = t.pos(n.0.idx as int);
            &&& t.leaf_in(n.0.idx as int) && t.kid_at(n.0.idx as int, n.1 as int) && q < p
            &&& t.pre(q + 1) == t.pre(p) && t.pre(q) + t.llen[n.0.idx as int] == t.pre(p) && t.llen[n.0.idx as int] > 0
            &&& 0 <= n.0.idx < self.lnodes@.len() && self.lnodes@[n.0.idx as int].value.vlen() == t.llen[n.0.idx as int] && 0 <= t.pre(q)
        },
    decreases vx_it.s@.len() - vx_it.i,
%at loopstart 0
    proof {
        if vx_it.i < vx_it.s@.len() {
            let j = vx_it.s@.len() - 1 - vx_it.i;
            assert(vx_it.s@[j].idx == t.nd[t.lpar[c]].kids[j]);
            beside(*self, c, idx_in_parent as int, j);
            leaf_len(*self, p - idx_in_parent + j);
        }
    }
%fn delete_range_in_leaf
%optionmap
%sub before_delete($x) =>> vx_before(before_delete, $x)
    requires
        old(self).wf(), old(self).found(leaf_idx.idx as int, leaf_offset as int, idx_in_parent as int),
        range.start < range.end, range.end - range.start <= old(self).lnodes@[leaf_idx.idx as int].value.vlen(),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] delete_with.requires((a, range)),
        forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] delete_with.ensures((a, range), m) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> may_leave(*a, *final(a), m),
    ensures
        final(self).wf(),
        exists|a: &mut L, m: (Option<L>, Option<L>)| *a == old(self).lnodes@[leaf_idx.idx as int].value && #[trigger] delete_with.ensures((a, range), m)
            && put_deleted(old(self).leaves(), final(self).leaves(), old(self).t@.pos(leaf_idx.idx as int), *final(a), m, r),
%at start
    let ghost g = *self;
    let ghost t = self.t@;
    let ghost c = leaf_idx.idx as int;
    let ghost p = t.pos(c);
    proof {
        leaf_len(g, p);
        at_root(g);
        let w = at_leaf(g, p);
    }
%before let diff
    let ghost v = lnode.value;
    let ghost more = (first, second);
%before self.patch
    let ghost t1 = t.with_leaf_len(c, v.vlen());
    let ghost g1 = Gtree { t: Ghost(t1), ..*self };
    proof {
        self.t@ = t1;
        same_sound(*self, g1);
        set_almost(g, *self, p, v);
    }
%after self.patch
    let ghost g2 = *self;
    let ghost mut g3 = *self;
    let ghost j0 = idx_in_parent as int;
    let ghost s2 = g2.leaves();
    proof {
        sound_parts(*self);
        assert(self.leaves() =~= g1.leaves());
        sound_parts(g);
        kid_same(t, g2.t@, p, idx_in_parent as int);
        leaf_facts(g2);
        leaf_len(g2, p);
        at_root(g2);
        set_sum(g.leaves(), p, lf(leaf_idx, v), g.leaves().len() as int);
        set_sum(g.leaves(), p, lf(leaf_idx, v), p);
        let wn = at_node(g2, g2.t@.lpar[c]);
        let wl = at_leaf(g2, p);
        if p + 1 < g2.t@.lv[0].len() { leaf_len(g2, p + 1); }
        if p > 0 { leaf_len(g2, p - 1); }
        beside(g2, c, j0, j0);
    }
%before self.cursor
    proof {
        g3 = *self;
        fresh_up(g.leaves(), p, lf(leaf_idx, v), first_idx);
        fresh_up(g.leaves(), p, lf(leaf_idx, v), second_idx);
        vsum_same(g.leaves(), g3.leaves(), p);
        pre_is(g3, p, leaf_offset as int);
    }
%before self.insert_leaf_after_leaf
    proof { set_same(g2, *self, p + 1, g2.lnodes@[g2.t@.lv[0][p + 1]].value); assert(self.leaves() =~= s2); }
%after let inserted_idx
    proof {
        g3 = *self;
        if inserted_idx is None {
            let q = p + 1;
            L::joins(more.0->Some_0, g2.leaves()[q].v);
            set_same(g2, *self, q, self.lnodes@[g2.t@.lv[0][q]].value);
            beside(*self, c, j0, j0);
        } else {
            fresh_up(g.leaves(), p, lf(leaf_idx, v), inserted_idx->Some_0);
        }
        vsum_same(g.leaves(), g3.leaves(), p);
        leaf_facts(g3);
        pre_is(g3, p, leaf_offset as int);
    }
%after let deleted
    let ghost ra = more.0->Some_0;
    let ghost mut s1 = *self;
    proof {
        self.t@ = g2.t@.with_leaf_len(c, ra.vlen());
        set_almost(g2, *self, p, ra);
        s1 = *self;
        assert(g2.lnodes@[c].value == v);
        assert(deleted == v);
        almost_parts(s1);
        assert(g2.t@.lv[0][p - 1] != c) by { unshape(g2.t@); if g2.t@.lv[0][p - 1] == g2.t@.lv[0][p] { no_dup_idx(g2.t@.lv[0], p - 1, p); } }
    }
%after let rest
    proof {
        self.t@ = g2.t@;
        assert(self.lnodes@ =~= g2.lnodes@.update(c, Lnode { value: v, ..g2.lnodes@[c] }));
        set_same(g2, *self, p, v);
        assert(self.leaves() =~= s2);
        assert(rest == ra);
    }
%before 1 self.patch
    let ghost jo = L::joined(g2.leaves()[p - 1].v, v);
    let ghost s4 = *self;
    proof {
        L::joins(g2.leaves()[p - 1].v, v);
        set_same_almost(s1, *self, p - 1, jo);
        assert(self.t@ == s1.t@);
    }
%after 1 self.patch
    proof {
        same_leaves(*self, s4);
        sound_parts(*self);
        kid_same(s4.t@, self.t@, p, j0);
        beside(*self, c, j0, j0);
    }
%after 1 let inserted_idx
    proof {
        g3 = *self;
        if inserted_idx is Some {
            fresh_up(g.leaves(), p, lf(leaf_idx, v), inserted_idx->Some_0);
            assert(put(g.leaves(), g3.leaves(), p, v, more, (inserted_idx, None)));
        } else {
            assert(g3.leaves() =~= g.leaves().update(p - 1, lf(g.leaves()[p - 1].idx, L::joined(g.leaves()[p - 1].v, v))).update(p, lf(g.leaves()[p].idx, more.0->Some_0)));
            assert(put_deleted(g.leaves(), g3.leaves(), p, v, more, (inserted_idx, None)));
        }
        vsum_same(g.leaves(), g3.leaves(), p);
        leaf_facts(g3);
        pre_is(g3, p, leaf_offset as int);
    }
%before 3 self.cursor
    proof {
        g3 = *self;
        vsum_same(g.leaves(), g3.leaves(), p);
        pre_is(g3, p, leaf_offset as int);
    }
%at end
    proof { same_sound(*self, g3); }
%fn delete_leaf_range
    requires
        old(self).wf(), old(self).t@.leaf_in(leaf_idx.idx as int), leaf_offset == old(self).t@.pre(old(self).t@.pos(leaf_idx.idx as int)),
        range.start < range.end, range.end - range.start <= old(self).lnodes@[leaf_idx.idx as int].value.vlen(),
        forall|a: &mut L| *a == old(self).lnodes@[leaf_idx.idx as int].value ==> #[trigger] delete_with.requires((a, range)),
        forall|a: &mut L, m: (Option<L>, Option<L>)| #[trigger] delete_with.ensures((a, range), m) && *a == old(self).lnodes@[leaf_idx.idx as int].value
            ==> may_leave(*a, *final(a), m),
    ensures
        final(self).wf(),
        exists|a: &mut L, m: (Option<L>, Option<L>)| *a == old(self).lnodes@[leaf_idx.idx as int].value && #[trigger] delete_with.ensures((a, range), m)
            && put_deleted(old(self).leaves(), final(self).leaves(), old(self).t@.pos(leaf_idx.idx as int), *final(a), m, r),
