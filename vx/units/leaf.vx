// What a leaf of a tree has to be.
%raw
/// The length a leaf has in its tree.
pub trait VxLen: Sized {
    spec fn vlen(&self) -> int;
}
pub trait Leaf: VxLen {
    /// What joining two leaves leads to.
    spec fn can_join(a: Self, b: Self) -> bool;
    spec fn joined(a: Self, b: Self) -> Self;
    proof fn joins(a: Self, b: Self)
        requires Self::can_join(a, b),
        ensures Self::joined(a, b).vlen() == a.vlen() + b.vlen();
    fn append(&mut self, o: Self) -> (r: Result<(), Self>)
        requires 0 <= old(self).vlen(), 0 <= o.vlen(),
        ensures
            match r {
                Ok(_) => Self::can_join(*old(self), o) && *final(self) == Self::joined(*old(self), o),
                Err(e) => !Self::can_join(*old(self), o) && e == o && *final(self) == *old(self),
            };
    fn prepend(&mut self, o: Self) -> (r: Result<(), Self>)
        requires 0 <= old(self).vlen(), 0 <= o.vlen(),
        ensures
            match r {
                Ok(_) => Self::can_join(o, *old(self)) && *final(self) == Self::joined(o, *old(self)),
                Err(e) => !Self::can_join(o, *old(self)) && e == o && *final(self) == *old(self),
            };
    fn len(&self) -> (r: usize)
        requires 0 <= self.vlen() <= usize::MAX,
        ensures r == self.vlen();
    fn is_empty(&self) -> (r: bool)
        requires 0 <= self.vlen() <= usize::MAX,
        ensures r == (self.vlen() == 0),
    { self.len() == 0 }
}
pub trait Delete: Leaf {
    /// What deleting a leaf makes of it.
    spec fn erased(a: Self) -> Self;
    proof fn erases(a: Self)
        requires 0 <= a.vlen(),
        ensures Self::erased(a).vlen() == 0;
    fn delete(&mut self)
        requires 0 <= old(self).vlen(),
        ensures *final(self) == Self::erased(*old(self));
}
