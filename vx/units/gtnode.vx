// gtree.rs: the tree itself.
%use gtops.vx
%use leaf.vx
%use length.vx
%raw
use core::marker::PhantomData;
/// `s.iter().enumerate()`, and `for _ in s`
pub struct VxEnum<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> VxEnum<'a, T> {
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, &old(self).s@[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { self.i += 1; Some((self.i - 1, &self.s[self.i - 1])) } else { None }
    }
}
pub fn vx_enum<'a, T>(s: &'a [T]) -> (r: VxEnum<'a, T>)
    ensures r.s == s, r.i == 0,
{ VxEnum { s, i: 0 } }
pub struct VxEach<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> VxEach<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { self.i += 1; Some(&self.s[self.i - 1]) } else { None }
    }
}
pub fn vx_each<'a, T>(s: &'a [T]) -> (r: VxEach<'a, T>)
    ensures r.s == s, r.i == 0,
{ VxEach { s, i: 0 } }
%file gtree.rs
%trait LengthExt
%header pub trait LengthExt: Sized
%ghost
    spec fn num(self) -> int;
    spec fn dnum(d: Self::Diff) -> int;
    spec fn ok(x: int) -> bool;
%fn diff
    requires Self::ok(old_len.num()), Self::ok(new_len.num()),
    ensures Self::dnum(r) == new_len.num() - old_len.num(),
%fn patch
    requires Self::ok(old(self).num() + Self::dnum(diff)),
    ensures final(self).num() == old(self).num() + Self::dnum(diff),
%item enum Diff
%impl LengthExt for Length
%ghost
    open spec fn num(self) -> int { self as int }
    open spec fn dnum(d: Diff) -> int { match d { Diff::Add(a) => a as int, Diff::Subtract(a) => -(a as int) } }
    open spec fn ok(x: int) -> bool { 0 <= x <= usize::MAX }
%fn diff
%fn patch
%item struct InodeIdx +Structural
%impl InodeIdx
%fn dangling
    ensures r.0 as int == nowhere(),
%fn is_dangling
    ensures r == (self.0 as int == nowhere()),
%item struct LeafIdx -Eq #[verifier::reject_recursive_types(L)]
%raw
impl<L> vstd::std_specs::cmp::PartialEqSpecImpl for LeafIdx<L> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LeafIdx<L>) -> bool { self.idx == o.idx }
}
pub open spec fn lx<L>(i: usize) -> LeafIdx<L> { LeafIdx { idx: i, _pd: PhantomData } }
%impl Copy for LeafIdx<L>
%impl Clone for LeafIdx<L>
%fn clone
    ensures r == *self,
%impl PartialEq<LeafIdx<L>> for LeafIdx<L>
%fn eq
%impl LeafIdx<L>
%fn dangling
    ensures r.idx as int == nowhere(),
%fn new
    ensures r.idx == idx,
%item type ChildIdx
%item struct Cursor -PartialEq -Eq #[verifier::reject_recursive_types(L)]
%impl Copy for Cursor<L>
%impl Clone for Cursor<L>
%fn clone
    ensures r == *self,
%impl Cursor<L>
%fn new
    ensures r.leaf_idx == leaf_idx, r.offset == offset, r.child_idx == child_idx,
%raw
/// An index of either kind.
#[verifier::reject_recursive_types(L)]
pub struct NodeIdx<L> { pub idx: usize, pub _pd: PhantomData<L> }
impl<L> Copy for NodeIdx<L> {}
impl<L> Clone for NodeIdx<L> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { *self }
}
impl<L> NodeIdx<L> {
    /// Reading one of the union's fields.
    pub fn vx_leaf(self) -> (r: LeafIdx<L>)
        ensures r.idx == self.idx,
    { LeafIdx { idx: self.idx, _pd: PhantomData } }
    pub fn vx_internal(self) -> (r: InodeIdx)
        ensures r.0 == self.idx,
    { InodeIdx(self.idx) }
}
/// The two transmutes.
#[verifier::external_body]
pub fn vx_leaves<L>(s: &[NodeIdx<L>]) -> (r: &[LeafIdx<L>])
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).idx == s@[i].idx,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_internals<L>(s: &[NodeIdx<L>]) -> (r: &[InodeIdx])
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == s@[i].idx,
{ unimplemented!() }
%impl NodeIdx<L>
%fn dangling
%sub Self { internal: InodeIdx::dangling() } =>> NodeIdx { idx: InodeIdx::dangling().0, _pd: PhantomData }
%fn from_internal
%sub Self { internal: $x } =>> NodeIdx { idx: $x.0, _pd: PhantomData }
    ensures r.idx == internal_idx.0,
%fn from_leaf
%sub Self { leaf: $x } =>> NodeIdx { idx: $x.idx, _pd: PhantomData }
    ensures r.idx == leaf_idx.idx,
%item enum Either -PartialEq
%impl Either<I,L>
%fn unwrap_internal
    requires self is Internal,
    ensures r == self->Internal_0,
%fn unwrap_leaf
    requires self is Leaf,
    ensures r == self->Leaf_0,
%item struct Inode -Clone #[verifier::reject_recursive_types(L)]
%item struct Lnode -PartialEq -Clone #[verifier::reject_recursive_types(Leaf)]
%item struct Gtree -Clone ghost:t:Ghost<T> #[verifier::reject_recursive_types(L)]
%raw
impl<const ARITY: usize, L: Leaf> Inode<ARITY, L> {
    pub open spec fn kid(self, j: int) -> int { self.children[j].idx as int }
    pub open spec fn kids(self) -> Seq<int> { Seq::new(self.num_children as nat, |j: int| self.kid(j)) }
    /// What a node is a picture of; only whether it has leaves is known of its height.
    pub open spec fn nd(self) -> Nd {
        Nd { kids: self.kids(), par: self.parent.0 as int, len: self.tot_len as int, lev: if self.has_leaves { 1 } else { 2 } }
    }
    pub open spec fn fits(self) -> bool { self.num_children <= ARITY }
}
#[verifier::external_body]
pub proof fn sizes<const ARITY: usize, L: Leaf>(v: Vec<Inode<ARITY, L>>, w: Vec<Lnode<L>>)
    ensures v.len() < usize::MAX, w.len() < usize::MAX,
{}
%file utils.rs
%raw
/// `slice[at..].rotate_right(1)`
#[verifier::external_body]
pub fn vx_rotate_right_1<T>(slice: &mut [T], at: usize)
    requires at < old(slice)@.len(),
    ensures
        final(slice)@.len() == old(slice)@.len(),
        forall|i: int| 0 <= i < final(slice)@.len() ==> #[trigger] final(slice)@[i] == if i < at { old(slice)@[i] } else if i == at { old(slice)@.last() } else { old(slice)@[i - 1] },
{ unimplemented!() }
%free insert_in_slice
%sub slice[$a..].rotate_right(1) =>> vx_rotate_right_1(slice, $a)
    requires at_offset < old(slice)@.len(),
    ensures
        final(slice)@.len() == old(slice)@.len(),
        forall|i: int| 0 <= i < final(slice)@.len() ==> #[trigger] final(slice)@[i] == if i < at_offset { old(slice)@[i] } else if i == at_offset { elem } else { old(slice)@[i - 1] },
%file gtree.rs
%impl Inode<ARITY,L>
%fn child
%sub unsafe { child.leaf } =>> child.vx_leaf()
%sub unsafe { child.internal } =>> child.vx_internal()
    requires child_idx < self.num_children, self.fits(),
    ensures
        match r {
            Either::Leaf(x) => self.has_leaves && x.idx == self.kid(child_idx as int),
            Either::Internal(x) => !self.has_leaves && x.0 == self.kid(child_idx as int),
        },
%fn children
%sub unsafe { mem::transmute::<&[NodeIdx<L>], &[LeafIdx<L>]>(children) } =>> vx_leaves(children)
%sub unsafe { mem::transmute::<&[NodeIdx<L>], &[InodeIdx]>(children) } =>> vx_internals(children)
    requires self.fits(),
    ensures
        match r {
            Either::Leaf(s) => self.has_leaves && s@.len() == self.num_children && forall|j: int| 0 <= j < s@.len() ==> (#[trigger] s@[j]).idx == self.kid(j),
            Either::Internal(s) => !self.has_leaves && s@.len() == self.num_children && forall|j: int| 0 <= j < s@.len() ==> (#[trigger] s@[j]).0 == self.kid(j),
        },
%fn from_leaf
    requires ARITY >= 1,
    ensures r.nd() == (Nd { kids: seq![leaf.idx as int], par: parent.0 as int, len: len as int, lev: 1 }), r.fits(),
%at end
    assert(vx_tail.kids() =~= seq![leaf.idx as int]);
%fn from_two_internals
    requires ARITY >= 2, first_len + second_len <= usize::MAX,
    ensures r.nd() == (Nd { kids: seq![first.0 as int, second.0 as int], par: parent.0 as int, len: first_len + second_len, lev: 2 }), r.fits(),
%at end
    assert(vx_tail.kids() =~= seq![first.0 as int, second.0 as int]);
%fn idx_of_internal_child
%forloops
%sub $s.iter().enumerate() =>> vx_enum($s)
    requires self.fits(), !self.has_leaves, self.kids().contains(inode_idx.0 as int),
    ensures
        0 <= r < self.num_children, self.kids()[r as int] == inode_idx.0,
        no_dup(self.kids()) ==> forall|j: int| 0 <= j < self.num_children && self.kids()[j] == inode_idx.0 ==> j == r,
%loop 0
    invariant_except_break
        vx_found is None,
        forall|j: int| 0 <= j < vx_it.i ==> #[trigger] self.kids()[j] != inode_idx.0,
    invariant
        self.fits(), !self.has_leaves,
        vx_it.s@.len() == self.num_children, forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).0 == self.kid(j),
        vx_it.i <= vx_it.s@.len(),
    ensures
        vx_found is None || exists|i: usize| vx_found == Some(i) && i < self.num_children && #[trigger] self.kids()[i as int] == inode_idx.0,
        vx_found is None ==> forall|j: int| 0 <= j < self.num_children ==> #[trigger] self.kids()[j] != inode_idx.0,
    decreases vx_it.s@.len() - vx_it.i,
%after vx_found = Some
    assert(self.kids()[((vx_it.i - 1) as usize) as int] == inode_idx.0);
%at end
    proof {
        if no_dup(self.kids()) {
            assert forall|j: int| 0 <= j < self.num_children && self.kids()[j] == inode_idx.0 implies j == vx_tail by { no_dup_idx(self.kids(), j, vx_tail as int); }
        }
    }
%fn idx_of_leaf_child
%forloops
%sub $s.iter().enumerate() =>> vx_enum($s)
    requires self.fits(), self.has_leaves, self.kids().contains(leaf_idx.idx as int),
    ensures
        0 <= r < self.num_children, self.kids()[r as int] == leaf_idx.idx,
        no_dup(self.kids()) ==> forall|j: int| 0 <= j < self.num_children && self.kids()[j] == leaf_idx.idx ==> j == r,
%loop 0
    invariant_except_break
        vx_found is None,
        forall|j: int| 0 <= j < vx_it.i ==> #[trigger] self.kids()[j] != leaf_idx.idx,
    invariant
        self.fits(), self.has_leaves,
        vx_it.s@.len() == self.num_children, forall|j: int| 0 <= j < vx_it.s@.len() ==> (#[trigger] vx_it.s@[j]).idx == self.kid(j),
        vx_it.i <= vx_it.s@.len(),
    ensures
        vx_found is None || exists|i: usize| vx_found == Some(i) && i < self.num_children && #[trigger] self.kids()[i as int] == leaf_idx.idx,
        vx_found is None ==> forall|j: int| 0 <= j < self.num_children ==> #[trigger] self.kids()[j] != leaf_idx.idx,
    decreases vx_it.s@.len() - vx_it.i,
%after vx_found = Some
    assert(self.kids()[((vx_it.i - 1) as usize) as int] == leaf_idx.idx);
%at end
    proof {
        if no_dup(self.kids()) {
            assert forall|j: int| 0 <= j < self.num_children && self.kids()[j] == leaf_idx.idx implies j == vx_tail by { no_dup_idx(self.kids(), j, vx_tail as int); }
        }
    }
%fn insert_two
    requires
        old(self).num_children + 2 <= ARITY, first_offset <= second_offset <= old(self).num_children,
        old(self).tot_len + first_len + second_len <= usize::MAX,
    ensures
        final(self).nd() == (Nd {
            kids: old(self).kids().insert(first_offset as int, first_child.idx as int).insert(second_offset + 1, second_child.idx as int),
            len: old(self).tot_len + first_len + second_len,
            ..old(self).nd()
        }),
        final(self).fits(), final(self).num_children == old(self).num_children + 2, final(self).tot_len == old(self).tot_len + first_len + second_len,
        final(self).kids() == old(self).kids().insert(first_offset as int, first_child.idx as int).insert(second_offset + 1, second_child.idx as int),
        final(self).has_leaves == old(self).has_leaves, final(self).parent == old(self).parent,
%fn insert
    requires old(self).num_children < ARITY, at_offset <= old(self).num_children, old(self).tot_len + child_len <= usize::MAX,
    ensures
        final(self).nd() == (Nd { kids: old(self).kids().insert(at_offset as int, child.idx as int), len: old(self).tot_len + child_len, ..old(self).nd() }),
        final(self).fits(), final(self).num_children == old(self).num_children + 1, final(self).tot_len == old(self).tot_len + child_len,
        final(self).kids() == old(self).kids().insert(at_offset as int, child.idx as int),
        final(self).has_leaves == old(self).has_leaves, final(self).parent == old(self).parent,
%at end
    assert(self.kids() =~= old(self).kids().insert(at_offset as int, child.idx as int));
%fn is_full
    ensures r == (self.num_children == ARITY),
%fn len
    ensures r == self.tot_len,
%fn len_mut
    ensures *r == old(self).tot_len, *final(self) == (Inode { tot_len: *final(r), ..*old(self) }),
%fn max_children
    ensures r == ARITY,
%fn min_children
    ensures r == ARITY / 2,
%fn num_children
    ensures r == self.num_children,
%fn parent
    ensures r == self.parent,
%fn parent_mut
    ensures *r == old(self).parent, *final(self) == (Inode { parent: *final(r), ..*old(self) }),
%fn split
    requires old(self).fits(), at_offset <= old(self).num_children, new_len <= old(self).tot_len,
    ensures
        final(self).nd() == (Nd { kids: old(self).kids().take(at_offset as int), len: new_len as int, ..old(self).nd() }),
        r.nd() == (Nd { kids: old(self).kids().skip(at_offset as int), len: old(self).tot_len - new_len, par: nowhere(), ..old(self).nd() }),
        final(self).fits(), r.fits(),
%at end
    assert(self.kids() =~= old(self).kids().take(at_offset as int));
    assert(vx_tail.kids() =~= old(self).kids().skip(at_offset as int));
%impl Lnode<L>
%fn len
    requires 0 <= self.value.vlen() <= usize::MAX,
    ensures r == self.value.vlen(),
%fn new
    ensures r.value == value, r.parent == parent,
%fn parent
    ensures r == self.parent,
%fn parent_mut
    ensures *r == old(self).parent, *final(self) == (Lnode { parent: *final(r), ..*old(self) }),
%fn value
    ensures *r == self.value,
%fn value_mut
    ensures *r == old(self).value, *final(self) == (Lnode { value: *final(r), ..*old(self) }),
