// A hash map keyed by replica: assumed to be a finite map, iterated in some
// order.  The type stands for `HashMap<ReplicaId, T, ..>` of replica_id.rs.
%raw
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ReplicaIdMap<T> { _p: core::marker::PhantomData<T> }

impl<T> ReplicaIdMap<T> {
    pub uninterp spec fn view(&self) -> Map<u64, T>;

    /// Two maps with the same entries are the same value.
    pub uninterp spec fn of(m: Map<u64, T>) -> ReplicaIdMap<T>;

    #[verifier::external_body]
    pub broadcast proof fn of_view(r: ReplicaIdMap<T>)
        ensures Self::of(#[trigger] r.view()) == r, r.view().dom().finite(),
    {}

    #[verifier::external_body]
    pub broadcast proof fn view_of(m: Map<u64, T>)
        requires m.dom().finite(),
        ensures #[trigger] Self::of(m).view() == m,
    {}

    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Map::<u64, T>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: T)
        ensures final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&T>)
        ensures
            r is Some == self@.contains_key(*k),
            r is Some ==> *r->Some_0 == self@[*k],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }

    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: u64) -> (r: &mut T)
        where T: VxDefault
        ensures
            old(self)@.contains_key(k) ==> *r == old(self)@[k],
            !old(self)@.contains_key(k) ==> r.is_default(),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }

    /// The entries `iter` goes through.
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(&u64, &T)>)
        ensures
            vx_keys(r@).no_duplicates(),
            vx_keys(r@).to_set() == self@.dom(),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == self@[*r@[i].0],
            r@.len() == self@.len(),
    { unimplemented!() }
}

impl<T: Copy> ReplicaIdMap<T> {
    /// `clone` of a map of plain numbers
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}

pub open spec fn vx_keys<T>(s: Seq<(&u64, &T)>) -> Seq<u64> {
    s.map_values(|e: (&u64, &T)| *e.0)
}

/// `Default`, with its meaning.
pub trait VxDefault: Sized {
    spec fn is_default(&self) -> bool;
}
impl VxDefault for u64 {
    open spec fn is_default(&self) -> bool { *self == 0 }
}
impl VxDefault for usize {
    open spec fn is_default(&self) -> bool { *self == 0 }
}
impl<T> ReplicaIdMap<T> {
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &u64) -> (r: Option<&mut T>)
        ensures
            r is Some == old(self)@.contains_key(*k),
            r is Some ==> *(r->Some_0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
}
