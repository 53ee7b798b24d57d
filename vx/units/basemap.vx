// version_map.rs and deletion.rs, but for their encoding and the comparison.
%use types.vx
%use maps.vx
%file version_map.rs
%item struct BaseMap -Clone -PartialEq -Eq #[verifier::reject_recursive_types(T)]
%item type VersionMap
%item type DeletionMap
%file deletion.rs
%alias Anchor InnerAnchor
%item struct Deletion -Clone -PartialEq -Eq
%raw
/// `Default` of the counts kept in a map.
pub trait VxZero: Sized {
    spec fn zero() -> Self;
    fn vx_default() -> (r: Self) ensures r == Self::zero();
}
impl VxZero for u64 {
    open spec fn zero() -> Self { 0 }
    fn vx_default() -> (r: Self) { 0 }
}
impl VxZero for usize {
    open spec fn zero() -> Self { 0 }
    fn vx_default() -> (r: Self) { 0 }
}
impl<T> BaseMap<T> {
    /// The count of a replica.
    pub open spec fn at(&self, id: u64) -> T where T: VxZero {
        if id == self.this_id {
            self.this_value
        } else if self.rest@.contains_key(id) {
            self.rest@[id]
        } else {
            T::zero()
        }
    }
    /// The owner's count is in one place only.
    pub open spec fn wf(&self) -> bool {
        !self.rest@.contains_key(self.this_id)
    }
}
/// The entries `iter` yields.
pub open spec fn vx_yields<T: VxZero>(m: BaseMap<T>, r: Seq<(u64, T)>) -> bool {
    &&& r.len() >= 1
    &&& r[0] == (m.this_id, m.this_value)
    &&& m.wf() ==> forall|i: int| 0 <= i < r.len() ==> m.at((#[trigger] r[i]).0) == r[i].1
    &&& forall|k: u64| m.rest@.contains_key(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]) == (k, m.rest@[k])
    &&& forall|i: int| 1 <= i < r.len() ==> m.rest@.contains_key((#[trigger] r[i]).0) && m.rest@[r[i].0] == r[i].1
}
%file version_map.rs
%impl BaseMap<T>
%fn get
%sigsub T: Default =>> T: VxZero
%sub self.rest.get($k).copied().unwrap_or_default() =>> match self.rest.get($k) { Some(vx_v) => *vx_v, None => T::vx_default() }
    ensures r == self.at(replica_id),
%fn get_mut
%sigsub T: Default =>> T: VxDefault + VxZero
%sub self.rest.entry($k).or_default() =>> self.rest.entry_or_default($k)
    requires forall|x: T| #[trigger] x.is_default() ==> x == T::zero(),
    ensures
        *r == old(self).at(replica_id),
        final(self).at(replica_id) == *final(r),
        final(self).this_id == old(self).this_id,
        replica_id != old(self).this_id ==> final(self).this_value == old(self).this_value,
        forall|j: u64| j != replica_id ==> final(self).at(j) == old(self).at(j),
        old(self).wf() ==> final(self).wf(),
        replica_id == old(self).this_id ==> final(self).rest == old(self).rest,
        replica_id != old(self).this_id ==> final(self).rest@ == old(self).rest@.insert(replica_id, *final(r)),
%fn fork
    ensures
        r.this_id == new_id,
        r.this_value == restart_at,
        r.rest@ == self.rest@.insert(self.this_id, self.this_value),
%fn fork_in_place
    ensures
        final(self).this_id == new_id,
        final(self).this_value == restart_at,
        final(self).rest@ == old(self).rest@.insert(old(self).this_id, old(self).this_value),
%fn insert
    ensures
        final(self).this_id == old(self).this_id,
        final(self).this_value == old(self).this_value,
        replica_id == old(self).this_id ==> final(self).rest@ == old(self).rest@,
        replica_id != old(self).this_id ==> final(self).rest@ == old(self).rest@.insert(replica_id, value),
%fn iter
%sigsub impl Iterator<Item = (ReplicaId, T)> + '_ =>> Vec<(ReplicaId, T)> where T: VxZero
%sub core::iter::once($e) =>> vx_once($e)
%sub this_entry.chain(self.rest.iter().map(|(&$a, &$b)| $e)) =>> { let mut vx_out = this_entry; let vx_es = self.rest.entries(); let mut vx_i: usize = 0; while vx_i < vx_es.len() { let (vx_a, vx_b) = vx_es[vx_i]; let $a = *vx_a; let $b = *vx_b; vx_out.push($e); vx_i += 1; } vx_out }
    ensures vx_yields(*self, r@),
%loop 0
    invariant
        vx_es@.len() == self.rest@.len(),
        vx_keys(vx_es@).to_set() == self.rest@.dom(),
        forall|i: int| 0 <= i < vx_es@.len() ==> *(#[trigger] vx_es@[i]).1 == self.rest@[*vx_es@[i].0],
        vx_i <= vx_es@.len(),
        vx_out@.len() == vx_i + 1,
        vx_out@[0] == (self.this_id, self.this_value),
        forall|i: int| 1 <= i < vx_out@.len() ==> (#[trigger] vx_out@[i]) == (*vx_es@[i - 1].0, *vx_es@[i - 1].1),
    decreases vx_es@.len() - vx_i,
%after 0 while
    proof {
        let ks = vx_keys(vx_es@);
        assert forall|k: u64| self.rest@.contains_key(k) implies
            exists|i: int| 0 <= i < vx_out@.len() && (#[trigger] vx_out@[i]) == (k, self.rest@[k]) by {
            assert(ks.to_set().contains(k));
            let j = ks.index_of(k);
            assert(*vx_es@[j].0 == k);
            assert(vx_out@[j + 1] == (k, self.rest@[k]));
        }
        assert forall|i: int| 1 <= i < vx_out@.len() implies
            self.rest@.contains_key((#[trigger] vx_out@[i]).0) && self.rest@[vx_out@[i].0] == vx_out@[i].1 by {
            assert(ks[i - 1] == *vx_es@[i - 1].0);
            assert(ks.to_set().contains(ks[i - 1]));
        }
    }
%fn new
    ensures r.this_id == this_id, r.this_value == this_value, r.rest@ == Map::<u64, T>::empty(), r.wf(),
%fn this
    ensures r == self.this_value,
%fn this_id
    ensures r == self.this_id,
%fn this_mut
    ensures
        *r == old(self).this_value,
        final(self).this_value == *final(r),
        final(self).this_id == old(self).this_id,
        final(self).rest == old(self).rest,

%raw
// the derived Clone
impl<T: Copy> BaseMap<T> {
    pub fn clone(&self) -> (r: Self)
        ensures r == *self,
    {
        broadcast use ReplicaIdMap::of_view;
        BaseMap { this_id: self.this_id, this_value: self.this_value, rest: self.rest.clone() }
    }
}
fn vx_once<E>(e: E) -> (r: Vec<E>)
    ensures r@ == seq![e],
{
    let mut v = Vec::new();
    v.push(e);
    v
}
%file deletion.rs
%impl Deletion
%fn deleted_by
    ensures r == self.version_map.this_id,
%fn deletion_ts
    ensures r == self.deletion_ts,
%fn end
    ensures r == self.end,
%fn is_no_op
    ensures r == (self.end.replica_id == 0),
%fn new
    ensures r.start == start, r.end == end, r.version_map == version_map, r.deletion_ts == deletion_ts,
%fn start
    ensures r == self.start,
%fn version_map
    ensures *r == self.version_map,
%fn no_op
    ensures r.end.replica_id == 0, r.version_map.wf(), r.deletion_ts == 0,
%raw
// the derived Clone
impl Clone for Deletion {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { Deletion { start: self.start, end: self.end, version_map: self.version_map.clone(), deletion_ts: self.deletion_ts } }
}
