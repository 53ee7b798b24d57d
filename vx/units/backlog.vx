// backlog.rs: edits that were received too early.
%use docspec.vx
%use deque.vx
%file backlog.rs
%alias VecDeque VxDeque
%item struct InsertionsBacklog -Clone -PartialEq
%item struct DeletionsBacklog -Clone -PartialEq
%item struct Backlog -Clone -PartialEq
%raw
impl VxDefault for InsertionsBacklog {
    open spec fn is_default(&self) -> bool { self.insertions@ == Seq::<Insertion>::empty() }
}
impl VxDefault for DeletionsBacklog {
    open spec fn is_default(&self) -> bool { self.deletions@ == Seq::<Deletion>::empty() }
}
pub open spec fn ins_sorted(s: Seq<Insertion>, id: u64) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).text.range.start < (#[trigger] s[j]).text.range.start
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).text.inserted_by == id
}
pub open spec fn del_sorted(s: Seq<Deletion>, id: u64) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).deletion_ts < (#[trigger] s[j]).deletion_ts
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).version_map.this_id == id
}
/// The insertion is kept, if there's none with its place in the author's text yet.
pub open spec fn ins_kept(s: Seq<Insertion>, t: Seq<Insertion>, e: Insertion) -> bool {
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).text.range.start == e.text.range.start {
        t == s
    } else {
        exists|i: int| 0 <= i <= s.len() && t == #[trigger] s.insert(i, e)
    }
}
pub open spec fn del_kept(s: Seq<Deletion>, t: Seq<Deletion>, e: Deletion) -> bool {
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).deletion_ts == e.deletion_ts {
        t == s
    } else {
        exists|i: int| 0 <= i <= s.len() && t == #[trigger] s.insert(i, e)
    }
}
pub open spec fn ins_gone(s: Seq<Insertion>, t: Seq<Insertion>, e: Insertion) -> bool {
    t == if s.len() > 0 && s[0].text.range.start == e.text.range.start { s.skip(1) } else { s }
}
pub open spec fn del_gone(s: Seq<Deletion>, t: Seq<Deletion>, e: Deletion) -> bool {
    t == if s.len() > 0 && s[0].deletion_ts == e.deletion_ts { s.skip(1) } else { s }
}
impl Backlog {
    /// The insertions by `id` that are kept.
    pub open spec fn ins(&self, id: u64) -> Seq<Insertion> {
        if self.insertions@.contains_key(id) { self.insertions@[id].insertions@ } else { Seq::empty() }
    }
    pub open spec fn dels(&self, id: u64) -> Seq<Deletion> {
        if self.deletions@.contains_key(id) { self.deletions@[id].deletions@ } else { Seq::empty() }
    }
    pub open spec fn wf(&self) -> bool {
        &&& forall|id: u64| ins_sorted(#[trigger] self.ins(id), id)
        &&& forall|id: u64| del_sorted(#[trigger] self.dels(id), id)
    }
    pub open spec fn same(&self, o: &Backlog) -> bool {
        &&& forall|id: u64| #[trigger] self.ins(id) == o.ins(id)
        &&& forall|id: u64| #[trigger] self.dels(id) == o.dels(id)
    }
    /// the derived Default
    pub fn default() -> (r: Self)
        ensures
            forall|id: u64| (#[trigger] r.ins(id)) == Seq::<Insertion>::empty(),
            forall|id: u64| (#[trigger] r.dels(id)) == Seq::<Deletion>::empty(),
    {
        Backlog { insertions: ReplicaIdMap::default(), deletions: ReplicaIdMap::default() }
    }
}
// the derived Clone
impl Clone for Backlog {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
%impl InsertionsBacklog
%fn insert
%sub self.insertions.binary_search_by(|$p| $e) =>> ({ let mut vx_o: Vec<Ordering> = Vec::new(); let mut vx_i: usize = 0; while vx_i < self.insertions.len() { let $p = self.insertions.vx_at(vx_i); vx_o.push($e); vx_i += 1; } vx_search(&vx_o) })
    requires
        ins_sorted(old(self).insertions@, insertion.text.inserted_by),
    ensures
        ins_sorted(final(self).insertions@, insertion.text.inserted_by),
        ins_kept(old(self).insertions@, final(self).insertions@, insertion),
%loop 0
    invariant
        vx_i <= self.insertions@.len(),
        *self == *old(self),
        vx_o@.len() == vx_i,
        forall|i: int| #![trigger vx_o@[i]] #![trigger self.insertions@[i]] 0 <= i < vx_i ==> vx_rank(vx_o@[i]) == (
            if self.insertions@[i].text.range.start < insertion.text.range.start { 0int }
            else if self.insertions@[i].text.range.start == insertion.text.range.start { 1 } else { 2 }),
    decreases self.insertions@.len() - vx_i,
%fn remove_first
%sub first.map(Insertion::start) =>> (match first { Some(vx_e) => Some(Insertion::start(vx_e)), None => None })
    ensures
        ins_gone(old(self).insertions@, final(self).insertions@, *insertion),
%impl DeletionsBacklog
%fn insert
%sub self.deletions.binary_search_by(|$p| $e) =>> ({ let mut vx_o: Vec<Ordering> = Vec::new(); let mut vx_i: usize = 0; while vx_i < self.deletions.len() { let $p = self.deletions.vx_at(vx_i); vx_o.push($e); vx_i += 1; } vx_search(&vx_o) })
    requires
        del_sorted(old(self).deletions@, deletion.version_map.this_id),
    ensures
        del_sorted(final(self).deletions@, deletion.version_map.this_id),
        del_kept(old(self).deletions@, final(self).deletions@, deletion),
%loop 0
    invariant
        vx_i <= self.deletions@.len(),
        *self == *old(self),
        vx_o@.len() == vx_i,
        forall|i: int| #![trigger vx_o@[i]] #![trigger self.deletions@[i]] 0 <= i < vx_i ==> vx_rank(vx_o@[i]) == (
            if self.deletions@[i].deletion_ts < deletion.deletion_ts { 0int }
            else if self.deletions@[i].deletion_ts == deletion.deletion_ts { 1 } else { 2 }),
    decreases self.deletions@.len() - vx_i,
%fn remove_first
%sub first.map(Deletion::deletion_ts) =>> (match first { Some(vx_e) => Some(Deletion::deletion_ts(vx_e)), None => None })
    ensures
        del_gone(old(self).deletions@, final(self).deletions@, *deletion),
%impl Backlog
%fn insert_deletion
%sub self.deletions.entry($k).or_default() =>> self.deletions.entry_or_default($k)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).insertions == old(self).insertions,
        forall|id: u64| id != deletion.version_map.this_id ==> #[trigger] final(self).dels(id) == old(self).dels(id),
        del_kept(old(self).dels(deletion.version_map.this_id), final(self).dels(deletion.version_map.this_id), deletion),
%at start
    let ghost id = deletion.version_map.this_id;
    proof { assert(del_sorted(self.dels(id), id)); }
%at end
    proof {
        assert forall|i: u64| del_sorted(#[trigger] self.dels(i), i) by { assert(i != id ==> self.dels(i) == old(self).dels(i)); assert(del_sorted(old(self).dels(i), i)); }
        assert forall|i: u64| ins_sorted(#[trigger] self.ins(i), i) by { assert(self.ins(i) == old(self).ins(i)); }
    }
%fn insert_insertion
%sub self.insertions.entry($k).or_default() =>> self.insertions.entry_or_default($k)
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).deletions == old(self).deletions,
        forall|id: u64| id != insertion.text.inserted_by ==> #[trigger] final(self).ins(id) == old(self).ins(id),
        ins_kept(old(self).ins(insertion.text.inserted_by), final(self).ins(insertion.text.inserted_by), insertion),
%at start
    let ghost id = insertion.text.inserted_by;
    proof { assert(ins_sorted(self.ins(id), id)); }
%at end
    proof {
        assert forall|i: u64| ins_sorted(#[trigger] self.ins(i), i) by { assert(i != id ==> self.ins(i) == old(self).ins(i)); assert(ins_sorted(old(self).ins(i), i)); }
        assert forall|i: u64| del_sorted(#[trigger] self.dels(i), i) by { assert(self.dels(i) == old(self).dels(i)); }
    }
%fn new
    ensures
        r.wf(),
        forall|id: u64| (#[trigger] r.ins(id)) == Seq::<Insertion>::empty(),
        forall|id: u64| (#[trigger] r.dels(id)) == Seq::<Deletion>::empty(),
%fn remove_deletion
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).insertions == old(self).insertions,
        forall|id: u64| id != deletion.version_map.this_id ==> #[trigger] final(self).dels(id) == old(self).dels(id),
        del_gone(old(self).dels(deletion.version_map.this_id), final(self).dels(deletion.version_map.this_id), *deletion),
%at start
    let ghost id = deletion.version_map.this_id;
    proof { assert(del_sorted(self.dels(id), id)); }
%at end
    proof {
        assert forall|i: u64| del_sorted(#[trigger] self.dels(i), i) by { assert(i != id ==> self.dels(i) == old(self).dels(i)); assert(del_sorted(old(self).dels(i), i)); }
        assert forall|i: u64| ins_sorted(#[trigger] self.ins(i), i) by { assert(self.ins(i) == old(self).ins(i)); }
    }
%fn remove_insertion
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).deletions == old(self).deletions,
        forall|id: u64| id != insertion.text.inserted_by ==> #[trigger] final(self).ins(id) == old(self).ins(id),
        ins_gone(old(self).ins(insertion.text.inserted_by), final(self).ins(insertion.text.inserted_by), *insertion),
%at start
    let ghost id = insertion.text.inserted_by;
    proof { assert(ins_sorted(self.ins(id), id)); }
%at end
    proof {
        assert forall|i: u64| ins_sorted(#[trigger] self.ins(i), i) by { assert(i != id ==> self.ins(i) == old(self).ins(i)); assert(ins_sorted(old(self).ins(i), i)); }
        assert forall|i: u64| del_sorted(#[trigger] self.dels(i), i) by { assert(self.dels(i) == old(self).dels(i)); }
    }
