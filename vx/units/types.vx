// Types shared by the units and the functions that read or build them.
%use prelude.vx
%file replica_id.rs
%item type ReplicaId
%use length.vx
%file replica.rs
%item type LamportTs
%item type RunTs
%item type DeletionTs
%file anchor.rs
%item enum AnchorBias +Structural
%item struct InnerAnchor
%item struct Anchor
%file text.rs
%item struct Text -Clone
%file insertion.rs
%item struct Insertion -Clone
%raw
// the derived Clone
impl Clone for Text {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { Text { inserted_by: self.inserted_by, range: self.range.start..self.range.end } }
}
impl Clone for Insertion {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { Insertion { anchor: self.anchor, text: self.text.clone(), run_ts: self.run_ts, lamport_ts: self.lamport_ts } }
}
%file text.rs
%impl Text
%fn end
    ensures r == self.range.end,
%fn inserted_by
    ensures r == self.inserted_by,
%fn len
    requires self.range.start <= self.range.end,
    ensures r == self.range.end - self.range.start,
%sub self.range.len() =>> (self.range.end - self.range.start)
%fn new
    ensures r.inserted_by == inserted_by, r.range == range,
%fn start
    ensures r == self.range.start,
%fn temporal_range
    ensures r == self.range,
%sub self.range.clone() =>> (self.range.start..self.range.end)
%file anchor.rs
%impl InnerAnchor
%fn is_zero
    ensures r == (self.replica_id == 0),
%fn new
    ensures r.replica_id == replica_id, r.offset == offset, r.contained_in == run_ts,
%fn offset
    ensures r == self.offset,
%fn replica_id
    ensures r == self.replica_id,
%fn run_ts
    ensures r == self.contained_in,
%fn zero
    ensures r.replica_id == 0, r.offset == 0, r.contained_in == 0,
%impl Anchor
%fn bias
    ensures r == self.bias,
%fn end_of_document
    ensures r.inner.replica_id == 0, r.inner.offset == 0, r.bias == AnchorBias::Right,
%fn inner
    ensures r == self.inner,
%fn is_end_of_document
    ensures r == (self.inner.replica_id == 0 && self.bias == AnchorBias::Right),
%fn is_start_of_document
    ensures r == (self.inner.replica_id == 0 && self.bias == AnchorBias::Left),
%fn new
    ensures r.inner == inner, r.bias == bias,
%fn start_of_document
    ensures r.inner.replica_id == 0, r.inner.offset == 0, r.bias == AnchorBias::Left,
%file insertion.rs
%raw
impl Insertion {
    pub open spec fn continues(self) -> bool {
        self.anchor.replica_id == self.text.inserted_by && self.anchor.contained_in == self.run_ts
    }
    /// Every insertion a replica creates or forwards satisfies this: an
    /// insertion anchored in its own run continues it.
    pub open spec fn wf(self) -> bool {
        &&& self.text.range.start <= self.text.range.end
        &&& self.continues() ==> self.anchor.offset == self.text.range.start
    }
}
%impl Insertion
%fn anchor
    ensures r == self.anchor,
%fn end
    ensures r == self.text.range.end,
%fn inserted_by
    ensures r == self.text.inserted_by,
%fn is_no_op
    requires self.text.range.start <= self.text.range.end,
    ensures r == (self.text.range.start == self.text.range.end),
%fn run_ts
    ensures r == self.run_ts,
%fn lamport_ts
    ensures r == self.lamport_ts,
%fn len
    requires self.text.range.start <= self.text.range.end,
    ensures r == self.text.range.end - self.text.range.start,
%fn new
    ensures r.anchor == anchor, r.text == text, r.lamport_ts == lamport_ts, r.run_ts == run_ts,
%fn no_op
    ensures r.text.range.start == 0, r.text.range.end == 0, r.wf(),
%fn start
    ensures r == self.text.range.start,
%fn text
    ensures *r == self.text,
