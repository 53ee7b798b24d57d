// What the units that use the tree assume of it is so: each contract of
// gtree.vx, taken from there as it's written, of the function it's of.
%use gtdrange.vx
%use gttwo.vx
%file run_tree.rs
%item const RUN_TREE_ARITY
%raw
/// The arity of the document's tree is one that's handled.
pub proof fn arity_handled()
    ensures RUN_TREE_ARITY >= 4, RUN_TREE_ARITY % 2 == 0,
{}
pub proof fn one_hit<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, offset: int, p: int, q: int, k: int)
    requires g.sound(), offset > 0, leaf_at(g.leaves(), offset, p), g.hit(offset, q, k),
    ensures p == q,
{
    leaf_facts(g);
    if p < q { leaf_len(g, p); leaf_len(g, q); pre_le2(g, p + 1, q); }
    if q < p { leaf_len(g, p); leaf_len(g, q); pre_le2(g, q + 1, p); }
}
/// A range starts in one leaf and ends in one.
pub proof fn one_span<const ARITY: usize, L: Leaf>(g: Gtree<ARITY, L>, start: int, end: int, p: int, q: int, i: int, j: int)
    requires g.sound(), spans(g.leaves(), start, end, p, q), spans(g.leaves(), start, end, i, j),
    ensures p == i, q == j,
{
    leaf_facts(g);
    if p < i { pre_le2(g, p + 1, i); }
    if i < p { pre_le2(g, i + 1, p); }
    if q < j { pre_le2(g, q + 1, j); }
    if j < q { pre_le2(g, j + 1, q); }
}
impl<'a, const ARITY: usize, L: Leaf> Leaves<'a, ARITY, L> {
%contract gtree.vx next
    {
        proof { leaf_facts(*self.gtree); }
        self.vx_next()
    }
}
impl<'a, const ARITY: usize, L: Leaf> Siblings<'a, ARITY, L> {
%contract gtree.vx next 1
    {
        proof { leaf_facts(*self.gtree); }
        self.next()
    }
}
impl<L> LeafIdx<L> {
    pub open spec fn nowhere() -> LeafIdx<L> { lx(usize::MAX) }
%contract gtree.vx dangling
    { LeafIdx::<L>::dangling() }
%contract gtree.vx same
    { self == o }
}
impl<const ARITY: usize, L: Leaf> Gtree<ARITY, L> {
%contract gtree.vx facts
    {
        leaf_facts(*self);
        assert forall|i: int| 0 <= i < self.leaves().len() implies (#[trigger] self.leaves()[i]).idx != LeafIdx::<L>::nowhere() by {}
    }
%contract gtree.vx len
    {
        proof { leaf_facts(*self); at_root(*self); }
        self.len()
    }
%contract gtree.vx leaf
    {
        proof { by_idx(*self, idx); let w = at_leaf(*self, at_idx(self.leaves(), idx)); }
        self.leaf(idx)
    }
%contract gtree.vx leaf_at_offset
    {
        proof { leaf_facts(*self); at_root(*self); }
        let r = self.leaf_at_offset(offset);
        proof {
            let p = self.t@.pos(r.0.idx as int);
            sound_parts(*self);
            pos_in(self.t@, r.0.idx as int);
            idx_by(*self, p, r.0);
            leaf_len(*self, p);
        }
        r
    }
%contract gtree.vx offset_of_leaf
    {
        proof { by_idx(*self, idx); leaf_facts(*self); }
        self.offset_of_leaf(idx)
    }
%contract gtree.vx next_leaf
    {
        proof { by_idx(*self, idx); }
        self.next_leaf(idx)
    }
%contract gtree.vx prev_leaf
    {
        proof { by_idx(*self, idx); }
        self.prev_leaf(idx)
    }
%contract gtree.vx remove_cursor
    { self.remove_cursor() }
%contract gtree.vx leaves_from_first
    { self.leaves_from_first() }
%contract gtree.vx leaves_of
    {
        proof { by_idx(*self, idx); }
        if include { self.vx_leaves_of::<true>(idx) } else { self.vx_leaves_of::<false>(idx) }
    }
%contract gtree.vx siblings_of
    {
        proof { by_idx(*self, idx); }
        if include { self.siblings::<true>(idx) } else { self.siblings::<false>(idx) }
    }
%contract gtree.vx prepend
    {
        proof { leaf_facts(*self); }
        self.prepend(v)
    }
%contract gtree.vx insert_leaf_after_another
    {
        proof { leaf_facts(*self); by_idx(*self, after); }
        self.insert_leaf_after_another(v, after)
    }
%contract gtree.vx append_leaf_to_another
    {
        proof { leaf_facts(*self); by_idx(*self, append_to); }
        self.append_leaf_to_another(append_to, leaf)
    }
%contract gtree.vx vx_set
    {
        let ghost p = at_idx(self.leaves(), idx);
        proof { leaf_facts(*self); by_idx(*self, idx); }
        let set = |a: &mut L| -> (r: ())
            ensures *final(a) == v,
        { *a = v; };
        self.with_leaf_mut(idx, set)
    }
%contract gtree.vx vx_put_insert
    {
        let ghost p = at_idx(self.leaves(), idx);
        let ghost g = *self;
        proof { leaf_facts(*self); by_idx(*self, idx); }
        let set = |a: &mut L, k: usize| -> (r: (Option<L>, Option<L>))
            ensures *final(a) == v, r == more,
        { *a = v; more };
        proof {
            pre_le2(g, p + 1, g.leaves().len() as int);
            assert forall|q: int, k: int| #[trigger] g.hit(offset as int, q, k) implies q == p by { one_hit(g, offset as int, p, q, k); }
        }
        self.insert(offset, set)
    }
%contract gtree.vx vx_put_two
    {
        let ghost p = at_idx(self.leaves(), idx);
        proof { leaf_facts(*self); by_idx(*self, idx); }
        let set = |a: &mut L| -> (r: (L, L))
            ensures *final(a) == v, r == more,
        { *a = v; more };
        self.split_leaf_with_another(idx, set)
    }
}
impl<const ARITY: usize, L: Delete> Gtree<ARITY, L> {
%contract gtree.vx vx_put_delete
    {
        let ghost p = at_idx(self.leaves(), idx);
        proof { leaf_facts(*self); by_idx(*self, idx); leaf_len(*self, p); }
        let set = |a: &mut L, _s: URange<usize>| -> (r: (Option<L>, Option<L>))
            ensures *final(a) == v, r == more,
        { *a = v; more };
        let none = |_a: &L| {};
        self.delete_leaf_range(idx, offset, range, none, set)
    }
%contract gtree.vx vx_delete_at
    {
        let ghost ls = self.leaves();
        proof { leaf_facts(*self); }
        let (i1, at1) = self.leaf_at_offset(range.start + 1);
        let (i2, at2) = self.leaf_at_offset(range.end);
        proof {
            sound_parts(*self);
            pos_in(self.t@, i1.idx as int);
            pos_in(self.t@, i2.idx as int);
            let p1 = self.t@.pos(i1.idx as int);
            let p2 = self.t@.pos(i2.idx as int);
            idx_by(*self, p1, i1);
            idx_by(*self, p2, i2);
            leaf_len(*self, p1);
            leaf_len(*self, p2);
            if p1 > p2 { pre_le2(*self, p2 + 1, p1); }
        }
        VxDel { within: i1.idx == i2.idx, i1, o1: range.start - at1, i2, o2: range.end - at2 }
    }
%contract gtree.vx vx_put_within
    {
        let ghost g = *self;
        let ghost p = at_idx(self.leaves(), d.i1);
        proof {
            leaf_facts(*self); by_idx(*self, d.i1); leaf_len(*self, p);
            at_root(g);
            assert forall|i: int, j: int| #[trigger] spans(g.leaves(), range.start as int, range.end as int, i, j) implies i == p && j == p by { one_span(g, range.start as int, range.end as int, p, p, i, j); }
        }
        let set = |a: &mut L, _s: URange<usize>| -> (r: (Option<L>, Option<L>))
            ensures *final(a) == v, r == more,
        { *a = v; more };
        let none = |_a: &L| {};
        let not = |_a: &mut L, _s: usize| -> (r: Option<L>) requires false { None };
        let not2 = |_a: &mut L, _s: usize| -> (r: Option<L>) requires false { None };
        self.delete(range, none, set, not, not2)
    }
%contract gtree.vx vx_put_across
    {
        let ghost g = *self;
        let ghost p = at_idx(self.leaves(), d.i1);
        let ghost q = at_idx(self.leaves(), d.i2);
        proof {
            leaf_facts(*self); by_idx(*self, d.i1); by_idx(*self, d.i2); leaf_len(*self, p); leaf_len(*self, q); pre_le2(*self, p + 1, q);
            at_root(g);
            assert forall|i: int, j: int| #[trigger] spans(g.leaves(), range.start as int, range.end as int, i, j) implies i == p && j == q by { one_span(g, range.start as int, range.end as int, p, q, i, j); }
        }
        let not = |_a: &mut L, _s: URange<usize>| -> (r: (Option<L>, Option<L>)) requires false { (None, None) };
        let none = |_a: &L| {};
        let set1 = |a: &mut L, _s: usize| -> (r: Option<L>)
            ensures *final(a) == v1, r == new1,
        { *a = v1; new1 };
        let set2 = |a: &mut L, _s: usize| -> (r: Option<L>)
            ensures *final(a) == v2, r == new2,
        { *a = v2; new2 };
        self.delete(range, none, not, set1, set2)
    }
}
impl<L: Leaf> Gtree<RUN_TREE_ARITY, L> {
    pub fn api_from_first_leaf(v: L) -> (r: (Gtree<RUN_TREE_ARITY, L>, LeafIdx<L>))
        requires 0 <= v.vlen() <= usize::MAX,
        ensures r.0.wf(), r.0.leaves() == seq![lf(r.1, v)],
    {
        Self::from_first_leaf(v)
    }
}
