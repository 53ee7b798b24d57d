// A double-ended queue: assumed to be a sequence.
%use types.vx
%use ordering.vx
%raw
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxDeque<T> { _p: core::marker::PhantomData<T> }

impl<T> VxDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;

    /// Two queues with the same elements are the same value.
    pub uninterp spec fn of(s: Seq<T>) -> VxDeque<T>;

    #[verifier::external_body]
    pub broadcast proof fn of_view(r: VxDeque<T>)
        ensures Self::of(#[trigger] r.view()) == r,
    {}

    #[verifier::external_body]
    pub broadcast proof fn view_of(s: Seq<T>)
        ensures #[trigger] Self::of(s).view() == s,
    {}

    #[verifier::external_body]
    pub fn vx_at(&self, i: usize) -> (r: &T)
        requires i < self@.len(),
        ensures *r == self@[i as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures
            r is Some == (self@.len() > 0),
            r is Some ==> *r->Some_0 == self@[0],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, v: T)
        requires i <= old(self)@.len(),
        ensures final(self)@ == old(self)@.insert(i as int, v),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn push_back(&mut self, v: T)
        ensures final(self)@ == old(self)@.push(v),
    { unimplemented!() }
}

/// `binary_search_by`, given what its closure says of each element.
#[verifier::external_body]
pub fn vx_search(o: &Vec<Ordering>) -> (r: Result<usize, usize>)
    requires
        forall|i: int, j: int| 0 <= i < j < o@.len() ==> vx_rank(#[trigger] o@[i]) <= vx_rank(#[trigger] o@[j]),
    ensures
        match r {
            Ok(k) => k < o@.len() && o@[k as int] == Ordering::Equal,
            Err(k) => {
                &&& k <= o@.len()
                &&& forall|i: int| 0 <= i < k ==> (#[trigger] o@[i]) == Ordering::Less
                &&& forall|i: int| k <= i < o@.len() ==> (#[trigger] o@[i]) == Ordering::Greater
            },
        },
{ unimplemented!() }

pub open spec fn vx_rank(o: Ordering) -> int {
    match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 }
}
