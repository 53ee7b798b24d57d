// The tree: a sequence of leaves, each with an index that stays the same.
// These contracts are what the other units assume of gtree.rs; gtbridge.vx proves
// them of it (but for a deletion across leaves, which is only searched).
%use types.vx
%use urange.vx
%use leaf.vx
%use gtvoc.vx
%raw
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct LeafIdx<L> { _p: core::marker::PhantomData<L> }
impl<L> Copy for LeafIdx<L> {}
impl<L> Clone for LeafIdx<L> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl<L> LeafIdx<L> {
    #[verifier::external_body]
    pub fn same(self, o: LeafIdx<L>) -> (r: bool)
        ensures r == (self == o),
    { unimplemented!() }
    pub uninterp spec fn nowhere() -> LeafIdx<L>;
    #[verifier::external_body]
    pub fn dangling() -> (r: Self)
        ensures r == Self::nowhere(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct Gtree<L> { _p: core::marker::PhantomData<L> }

#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct Leaves<'a, L> { _p: core::marker::PhantomData<&'a L> }
impl<'a, L: Leaf> Leaves<'a, L> {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn leaves(&self) -> Seq<Lf<L>>;
    /// The place of the next one.
    pub uninterp spec fn place(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(LeafIdx<L>, &'a L)>)
        requires old(self).wf(), 0 <= old(self).place(),
        ensures
            final(self).wf(),
            final(self).leaves() == old(self).leaves(),
            old(self).place() < old(self).leaves().len() ==> {
                &&& r matches Some(x) && x.0 == old(self).leaves()[old(self).place()].idx && *x.1 == old(self).leaves()[old(self).place()].v
                &&& final(self).place() == old(self).place() + 1
            },
            old(self).place() >= old(self).leaves().len() ==> r is None && final(self).place() == old(self).place(),
    { unimplemented!() }
}
/// The leaves after another in the same inode: some of those that follow it.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct Siblings<'a, L> { _p: core::marker::PhantomData<&'a L> }
impl<'a, L: Leaf> Siblings<'a, L> {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn leaves(&self) -> Seq<Lf<L>>;
    pub uninterp spec fn place(&self) -> int;
    pub uninterp spec fn upto(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(LeafIdx<L>, &'a L)>)
        requires old(self).wf(), 0 <= old(self).place(),
        ensures
            final(self).wf(),
            final(self).leaves() == old(self).leaves(),
            final(self).upto() == old(self).upto(),
            old(self).place() < old(self).upto() ==> {
                &&& r matches Some(x) && x.0 == old(self).leaves()[old(self).place()].idx && *x.1 == old(self).leaves()[old(self).place()].v
                &&& final(self).place() == old(self).place() + 1
            },
            old(self).place() >= old(self).upto() ==> r is None && final(self).place() == old(self).place(),
    { unimplemented!() }
}
/// Leaves visited while the tree is changed in place.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
pub struct Cur<L> { _p: core::marker::PhantomData<L> }
impl<L: Leaf> Cur<L> {
    pub uninterp spec fn place(&self) -> int;
    /// The leaves there were when it was made.
    pub uninterp spec fn order(&self) -> Seq<LeafIdx<L>>;
}

impl<L: Leaf> Gtree<L> {
    pub uninterp spec fn leaves(&self) -> Seq<Lf<L>>;
    pub uninterp spec fn wf(&self) -> bool;
    /// All but the cursor is as it should be.
    pub uninterp spec fn sound(&self) -> bool;

    #[verifier::external_body]
    pub proof fn facts(&self)
        requires self.wf(),
        ensures
            distinct(self.leaves()),
            self.leaves().len() > 0,
            vsum(self.leaves(), self.leaves().len() as int) <= usize::MAX,
            forall|i: int| 0 <= i < self.leaves().len() ==> (#[trigger] self.leaves()[i]).idx != LeafIdx::<L>::nowhere(),
    {}
    #[verifier::external_body]
    pub fn from_first_leaf(v: L) -> (r: (Gtree<L>, LeafIdx<L>))
        requires 0 <= v.vlen() <= usize::MAX,
        ensures r.0.wf(), r.0.leaves() == seq![lf(r.1, v)],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == vsum(self.leaves(), self.leaves().len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn leaf(&self, idx: LeafIdx<L>) -> (r: &L)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures *r == self.leaves()[at_idx(self.leaves(), idx)].v,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn leaf_at_offset(&self, offset: usize) -> (r: (LeafIdx<L>, usize))
        requires self.wf(), offset <= vsum(self.leaves(), self.leaves().len() as int),
        ensures
            has_idx(self.leaves(), r.0),
            leaf_at(self.leaves(), offset as int, at_idx(self.leaves(), r.0)),
            r.1 == vsum(self.leaves(), at_idx(self.leaves(), r.0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn offset_of_leaf(&self, idx: LeafIdx<L>) -> (r: usize)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures r == vsum(self.leaves(), at_idx(self.leaves(), idx)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_leaf(&self, idx: LeafIdx<L>) -> (r: Option<LeafIdx<L>>)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures
            at_idx(self.leaves(), idx) + 1 < self.leaves().len() ==> r == Some(self.leaves()[at_idx(self.leaves(), idx) + 1].idx),
            at_idx(self.leaves(), idx) + 1 >= self.leaves().len() ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn prev_leaf(&self, idx: LeafIdx<L>) -> (r: Option<LeafIdx<L>>)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures
            at_idx(self.leaves(), idx) > 0 ==> r == Some(self.leaves()[at_idx(self.leaves(), idx) - 1].idx),
            at_idx(self.leaves(), idx) == 0 ==> r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_cursor(&mut self)
        requires old(self).sound() || old(self).wf(),
        ensures final(self).wf(), final(self).leaves() == old(self).leaves(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn leaves_from_first<'a>(&'a self) -> (r: Leaves<'a, L>)
        requires self.wf(),
        ensures r.wf(), r.leaves() == self.leaves(), r.place() == 0,
    { unimplemented!() }
    /// `leaves::<true>`, `leaves::<false>`
    #[verifier::external_body]
    pub fn leaves_of<'a>(&'a self, include: bool, idx: LeafIdx<L>) -> (r: Leaves<'a, L>)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures
            r.wf(),
            r.leaves() == self.leaves(),
            r.place() == at_idx(self.leaves(), idx) + if include { 0int } else { 1 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn siblings_of<'a>(&'a self, include: bool, idx: LeafIdx<L>) -> (r: Siblings<'a, L>)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures
            r.wf(),
            r.leaves() == self.leaves(),
            r.place() == at_idx(self.leaves(), idx) + if include { 0int } else { 1 },
            r.place() <= r.upto() <= self.leaves().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cur_of(&self, idx: LeafIdx<L>) -> (r: Cur<L>)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures r.place() == at_idx(self.leaves(), idx), r.order() == order(self.leaves()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cur_next(&self, c: &mut Cur<L>) -> (r: Option<(LeafIdx<L>, &L)>)
        requires self.wf(), old(c).order() == order(self.leaves()), 0 <= old(c).place(),
        ensures
            final(c).order() == old(c).order(),
            old(c).place() < self.leaves().len() ==> {
                &&& r matches Some(x) && x.0 == self.leaves()[old(c).place()].idx && *x.1 == self.leaves()[old(c).place()].v
                &&& final(c).place() == old(c).place() + 1
            },
            old(c).place() >= self.leaves().len() ==> r is None && final(c).place() == old(c).place(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn prepend(&mut self, v: L) -> (r: LeafIdx<L>)
        requires old(self).wf(), 0 <= v.vlen(), vsum(old(self).leaves(), old(self).leaves().len() as int) + v.vlen() <= usize::MAX,
        ensures
            final(self).wf(),
            fresh(old(self).leaves(), r),
            final(self).leaves() == old(self).leaves().insert(0, lf(r, v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_leaf_after_another(&mut self, v: L, after: LeafIdx<L>) -> (r: (usize, LeafIdx<L>))
        requires old(self).wf(), has_idx(old(self).leaves(), after),
            0 <= v.vlen(), vsum(old(self).leaves(), old(self).leaves().len() as int) + v.vlen() <= usize::MAX,
        ensures
            final(self).wf(),
            fresh(old(self).leaves(), r.1),
            final(self).leaves() == old(self).leaves().insert(at_idx(old(self).leaves(), after) + 1, lf(r.1, v)),
            r.0 == vsum(old(self).leaves(), at_idx(old(self).leaves(), after) + 1),
    { unimplemented!() }

    // What takes a closure is told in three steps: the leaf the closure is
    // given, the closure, and what becomes of what it leaves and returns.

    #[verifier::external_body]
    pub fn vx_take(&self, idx: LeafIdx<L>) -> (r: L)
        requires self.wf(), has_idx(self.leaves(), idx),
        ensures r == self.leaves()[at_idx(self.leaves(), idx)].v,
    { unimplemented!() }
    /// `with_leaf_mut`; the cursor stays what it was.
    #[verifier::external_body]
    pub fn vx_set(&mut self, idx: LeafIdx<L>, v: L)
        requires
            old(self).wf(), has_idx(old(self).leaves(), idx), 0 <= v.vlen(),
            vsum(old(self).leaves(), old(self).leaves().len() as int) - old(self).leaves()[at_idx(old(self).leaves(), idx)].v.vlen() + v.vlen() <= usize::MAX,
        ensures
            final(self).sound(),
            final(self).leaves() == old(self).leaves().update(at_idx(old(self).leaves(), idx), lf(idx, v)),
    { unimplemented!() }
    /// `insert`, after its closure.
    #[verifier::external_body]
    pub fn vx_put_insert(&mut self, offset: usize, idx: LeafIdx<L>, v: L, more: (Option<L>, Option<L>)) -> (r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>))
        requires
            old(self).wf(), has_idx(old(self).leaves(), idx), 0 < offset, leaf_at(old(self).leaves(), offset as int, at_idx(old(self).leaves(), idx)), 0 <= v.vlen(),
            more.0 is None ==> more.1 is None,
            more.0 is Some ==> 0 <= more.0->Some_0.vlen(),
            more.1 is Some ==> 0 <= more.1->Some_0.vlen(),
            vsum(old(self).leaves(), old(self).leaves().len() as int) - old(self).leaves()[at_idx(old(self).leaves(), idx)].v.vlen() + v.vlen()
                + (if more.0 is Some { more.0->Some_0.vlen() } else { 0 }) + (if more.1 is Some { more.1->Some_0.vlen() } else { 0 }) <= usize::MAX,
        ensures
            final(self).wf(),
            put(old(self).leaves(), final(self).leaves(), at_idx(old(self).leaves(), idx), v, more, r),
    { unimplemented!() }
    /// `split_leaf_with_another`, after its closure.
    #[verifier::external_body]
    pub fn vx_put_two(&mut self, idx: LeafIdx<L>, v: L, more: (L, L)) -> (r: (usize, LeafIdx<L>, LeafIdx<L>))
        requires
            old(self).wf(), has_idx(old(self).leaves(), idx), 0 <= v.vlen(), 0 <= more.0.vlen(), 0 <= more.1.vlen(),
            v.vlen() + more.1.vlen() == old(self).leaves()[at_idx(old(self).leaves(), idx)].v.vlen(),
            vsum(old(self).leaves(), old(self).leaves().len() as int) + more.0.vlen() <= usize::MAX,
        ensures
            final(self).wf(),
            put(old(self).leaves(), final(self).leaves(), at_idx(old(self).leaves(), idx), v, (Some(more.0), Some(more.1)), (Some(r.1), Some(r.2))),
            r.0 == vsum(old(self).leaves(), at_idx(old(self).leaves(), idx)) + v.vlen(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append_leaf_to_another(&mut self, append_to: LeafIdx<L>, leaf: L) -> (r: usize)
        requires
            old(self).wf(), has_idx(old(self).leaves(), append_to), 0 <= leaf.vlen(),
            L::can_join(old(self).leaves()[at_idx(old(self).leaves(), append_to)].v, leaf),
            vsum(old(self).leaves(), old(self).leaves().len() as int) + leaf.vlen() <= usize::MAX,
        ensures
            final(self).wf(),
            final(self).leaves() == old(self).leaves().update(at_idx(old(self).leaves(), append_to),
                lf(append_to, L::joined(old(self).leaves()[at_idx(old(self).leaves(), append_to)].v, leaf))),
            r == vsum(old(self).leaves(), at_idx(old(self).leaves(), append_to)),
    { unimplemented!() }
    /// `delete_leaf_range`, after its closure.
    #[verifier::external_body]
    pub fn vx_put_delete(&mut self, idx: LeafIdx<L>, offset: usize, range: URange<usize>, v: L, more: (Option<L>, Option<L>)) -> (r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>))
        requires
            old(self).wf(), has_idx(old(self).leaves(), idx), offset == vsum(old(self).leaves(), at_idx(old(self).leaves(), idx)),
            range.start < range.end, range.end - range.start <= old(self).leaves()[at_idx(old(self).leaves(), idx)].v.vlen(),
            may_leave(old(self).leaves()[at_idx(old(self).leaves(), idx)].v, v, more),
        ensures
            final(self).wf(),
            put_deleted(old(self).leaves(), final(self).leaves(), at_idx(old(self).leaves(), idx), v, more, r),
    { unimplemented!() }
}
impl<L: Delete> Gtree<L> {
    // `delete` is told in the same way: where the range is, and what becomes of
    // what its closures leave and return.

    #[verifier::external_body]
    pub fn vx_delete_at(&self, range: URange<usize>) -> (r: VxDel<L>)
        requires self.wf(), range.start < range.end <= vsum(self.leaves(), self.leaves().len() as int),
        ensures deletes_at(self.leaves(), range, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put_within(&mut self, range: URange<usize>, d: &VxDel<L>, v: L, more: (Option<L>, Option<L>)) -> (r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>))
        requires
            old(self).wf(), deletes_at(old(self).leaves(), range, *d), d.within, range.start < range.end,
            may_leave(old(self).leaves()[at_idx(old(self).leaves(), d.i1)].v, v, more),
        ensures
            final(self).wf(),
            put_deleted(old(self).leaves(), final(self).leaves(), at_idx(old(self).leaves(), d.i1), v, more, r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put_across(&mut self, range: URange<usize>, d: &VxDel<L>, v1: L, new1: Option<L>, v2: L, new2: Option<L>) -> (r: (Option<LeafIdx<L>>, Option<LeafIdx<L>>))
        requires
            old(self).wf(), deletes_at(old(self).leaves(), range, *d), !d.within,
            may_keep(old(self).leaves()[at_idx(old(self).leaves(), d.i1)].v, v1, new1),
            may_keep(old(self).leaves()[at_idx(old(self).leaves(), d.i2)].v, v2, new2),
        ensures
            final(self).wf(),
            put_across(old(self).leaves(), final(self).leaves(), at_idx(old(self).leaves(), d.i1), v1, new1, at_idx(old(self).leaves(), d.i2), v2, new2, r),
    { unimplemented!() }
}
