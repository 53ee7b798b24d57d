// run_tree.rs: what's done to a single run.
%use runspec.vx
%use ordering.vx
%use urange.vx
%file run_tree.rs
%alias Range URange
%alias Anchor InnerAnchor
%item struct EditRun -Clone -PartialEq -Eq
%raw
// the derived Clone
impl Clone for EditRun {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { EditRun { text: self.text.clone(), run_ts: self.run_ts, lamport_ts: self.lamport_ts, is_deleted: self.is_deleted } }
}
impl EditRun {
    pub open spec fn wf(&self) -> bool { self.text.range.start <= self.text.range.end }
    pub open spec fn n(&self) -> int { self.text.range.end - self.text.range.start }
    pub open spec fn chars(&self) -> Seq<Ch> {
        block(self.text.inserted_by, self.text.range.start as int, self.text.range.end as int,
            self.run_ts, self.lamport_ts, self.is_deleted)
    }
    /// The same run, another part of it.
    pub open spec fn kin(&self, o: &EditRun) -> bool {
        &&& self.text.inserted_by == o.text.inserted_by
        &&& self.run_ts == o.run_ts
        &&& self.lamport_ts == o.lamport_ts
    }
    pub open spec fn part(&self, o: &EditRun, start: int, end: int) -> bool {
        &&& self.kin(o)
        &&& self.text.range.start == o.text.range.start + start
        &&& self.text.range.end == o.text.range.start + end
    }
}
%file run_tree.rs
%impl Ord for EditRun
%header impl EditRun
%fn cmp
    ensures
        (r == Ordering::Greater) == beats(other.lamport_ts, other.text.inserted_by, self.lamport_ts, self.text.inserted_by),
        (r == Ordering::Equal) == (other.lamport_ts == self.lamport_ts && other.text.inserted_by == self.text.inserted_by),
%impl PartialOrd for EditRun
%header impl EditRun
%fn partial_cmp
    ensures
        r is Some,
        (r == Some(Ordering::Greater)) == beats(other.lamport_ts, other.text.inserted_by, self.lamport_ts, self.text.inserted_by),
        (r == Some(Ordering::Equal)) == (other.lamport_ts == self.lamport_ts && other.text.inserted_by == self.text.inserted_by),
%impl EditRun
%fn can_append
    ensures r == (self.text.range.end == other.text.range.start && self.kin(other) && self.is_deleted == other.is_deleted),
%fn can_prepend
    ensures r == (self.text.range.start == other.text.range.end && self.kin(other) && self.is_deleted == other.is_deleted),
%fn contains_anchor
    requires anchor.replica_id != 0,
    ensures r == (self.text.inserted_by == anchor.replica_id && self.text.range.start < anchor.offset <= self.text.range.end),
%fn end
    ensures r == self.text.range.end,
%fn end_mut
    ensures
        *r == old(self).text.range.end,
        final(self).text.range.end == *final(r),
        final(self).text.range.start == old(self).text.range.start,
        final(self).kin(&old(self)),
        final(self).is_deleted == old(self).is_deleted,
%fn extend
    requires old(self).text.range.end + extend_by <= usize::MAX,
    ensures
        final(self).part(&old(self), 0, old(self).n() + extend_by),
        final(self).is_deleted == old(self).is_deleted,
%fn delete
    ensures final(self).part(&old(self), 0, old(self).n()), final(self).is_deleted,
%fn delete_from
    requires old(self).wf(), !old(self).is_deleted, offset <= old(self).n(),
    ensures
        offset == 0 ==> final(self).is_deleted && final(self).part(&old(self), 0, old(self).n()) && r is None,
        0 < offset < old(self).n() ==> {
            &&& !final(self).is_deleted
            &&& final(self).part(&old(self), 0, offset as int)
            &&& r matches Some(d) && d.is_deleted && d.part(&old(self), offset as int, old(self).n())
        },
        0 < offset == old(self).n() ==> *final(self) == *old(self) && r is None,
%fn delete_range
%optionmap
%sigsub Range { start, end }: Range<Length> =>> range: Range<Length>
    requires
        old(self).wf(), !old(self).is_deleted,
        range.start <= range.end <= old(self).n(),
    ensures
        range.start == range.end ==> *final(self) == *old(self) && r.0 is None && r.1 is None,
        0 == range.start < range.end == old(self).n() ==>
            final(self).is_deleted && final(self).part(&old(self), 0, old(self).n()) && r.0 is None && r.1 is None,
        0 == range.start < range.end < old(self).n() ==> {
            &&& final(self).is_deleted && final(self).part(&old(self), 0, range.end as int)
            &&& r.0 matches Some(a) && !a.is_deleted && a.part(&old(self), range.end as int, old(self).n())
            &&& r.1 is None
        },
        0 < range.start < range.end == old(self).n() ==> {
            &&& !final(self).is_deleted && final(self).part(&old(self), 0, range.start as int)
            &&& r.0 matches Some(a) && a.is_deleted && a.part(&old(self), range.start as int, old(self).n())
            &&& r.1 is None
        },
        0 < range.start < range.end < old(self).n() ==> {
            &&& !final(self).is_deleted && final(self).part(&old(self), 0, range.start as int)
            &&& r.0 matches Some(a) && a.is_deleted && a.part(&old(self), range.start as int, range.end as int)
            &&& r.1 matches Some(b) && !b.is_deleted && b.part(&old(self), range.end as int, old(self).n())
        },
%at start
    let URange { start, end } = range;
%fn delete_up_to
    requires old(self).wf(), !old(self).is_deleted, offset <= old(self).n(),
    ensures
        offset == 0 ==> *final(self) == *old(self) && r is None,
        0 < offset < old(self).n() ==> {
            &&& final(self).is_deleted
            &&& final(self).part(&old(self), 0, offset as int)
            &&& r matches Some(d) && !d.is_deleted && d.part(&old(self), offset as int, old(self).n())
        },
        0 < offset == old(self).n() ==> final(self).is_deleted && final(self).part(&old(self), 0, old(self).n()) && r is None,
%fn from_insertion
    ensures
        r.text == insertion.text, r.run_ts == insertion.run_ts, r.lamport_ts == insertion.lamport_ts, !r.is_deleted,
%fn lamport_ts
    ensures r == self.lamport_ts,
%fn len
    requires self.wf(),
    ensures r == self.n(),
%fn new_visible
    ensures r.text == text, r.run_ts == run_ts, r.lamport_ts == lamport_ts, !r.is_deleted,
%fn new
    ensures r.text == text, r.run_ts == run_ts, r.lamport_ts == lamport_ts, r.is_deleted == is_deleted,
%fn replica_id
    ensures r == self.text.inserted_by,
%fn run_ts
    ensures r == self.run_ts,
%fn split
    requires old(self).wf(), at_offset <= old(self).n(),
    ensures
        at_offset == 0 || at_offset == old(self).n() ==> *final(self) == *old(self) && r is None,
        0 < at_offset < old(self).n() ==> {
            &&& final(self).part(&old(self), 0, at_offset as int) && final(self).is_deleted == old(self).is_deleted
            &&& r matches Some(d) && d.part(&old(self), at_offset as int, old(self).n()) && d.is_deleted == old(self).is_deleted
        },
%fn start
    ensures r == self.text.range.start,
%fn start_mut
    ensures
        *r == old(self).text.range.start,
        final(self).text.range.start == *final(r),
        final(self).text.range.end == old(self).text.range.end,
        final(self).kin(&old(self)),
        final(self).is_deleted == old(self).is_deleted,
%fn visible_len
    requires self.wf(),
    ensures r == (if self.is_deleted { 0 } else { self.n() }),
%impl gtree::Join for EditRun
%header impl EditRun
%fn append
    ensures
        old(self).text.range.end == other.text.range.start && old(self).kin(&other) && old(self).is_deleted == other.is_deleted ==> {
            &&& r is Ok
            &&& final(self).kin(&old(self)) && final(self).is_deleted == old(self).is_deleted
            &&& final(self).text.range.start == old(self).text.range.start
            &&& final(self).text.range.end == other.text.range.end
        },
        !(old(self).text.range.end == other.text.range.start && old(self).kin(&other) && old(self).is_deleted == other.is_deleted) ==>
            r == Err::<(), EditRun>(other) && *final(self) == *old(self),
%fn prepend
    ensures
        old(self).text.range.start == other.text.range.end && old(self).kin(&other) && old(self).is_deleted == other.is_deleted ==> {
            &&& r is Ok
            &&& final(self).kin(&old(self)) && final(self).is_deleted == old(self).is_deleted
            &&& final(self).text.range.start == other.text.range.start
            &&& final(self).text.range.end == old(self).text.range.end
        },
        !(old(self).text.range.start == other.text.range.end && old(self).kin(&other) && old(self).is_deleted == other.is_deleted) ==>
            r == Err::<(), EditRun>(other) && *final(self) == *old(self),
%impl gtree::Delete for EditRun
%header impl EditRun
%fn delete
%rename leaf_delete
    ensures final(self).part(&old(self), 0, old(self).n()), final(self).is_deleted,
%impl gtree::Leaf for EditRun
%header impl EditRun
%fn len
%rename leaf_len
    requires self.wf(),
    ensures r == (if self.is_deleted { 0 } else { self.n() }),
