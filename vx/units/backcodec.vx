// The encoding of a backlog.
%import deletion.vx
%import backlog.vx
%use coded.vx
%file backlog.rs
%item enum BacklogDecodeError
%item struct ReplicaIdInsertions
%item struct ReplicaIdDeletions
%file encode.rs
%trait DecodeWithCtx
%ghost
    /// The value at the front of `b`, what decoding it makes of the context, and what
    /// follows it.
    spec fn decx(b: Seq<u8>, c: Self::Ctx) -> Option<(Self::Value, Self::Ctx, Seq<u8>)>;
%fn decode
    ensures
        match r {
            Ok((v, rest)) => Self::decx(buf@, *old(ctx)) == Some((v, *final(ctx), rest@)),
            Err(_) => Self::decx(buf@, *old(ctx)) is None,
        },
%file backlog.rs
%impl From<IntDecodeError> for BacklogDecodeError
%fn from
%impl From<BaseMapDecodeError<Length>> for BacklogDecodeError
%fn from
%raw
impl vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for BacklogDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<BaseMapDecodeError<Length>> for BacklogDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BaseMapDecodeError<Length>) -> Self;
}
// the derived Defaults
impl InsertionsBacklog {
    pub fn default() -> (r: Self)
        ensures r.insertions@ == Seq::<Insertion>::empty(),
    { InsertionsBacklog { insertions: VxDeque::default() } }
}
impl DeletionsBacklog {
    pub fn default() -> (r: Self)
        ensures r.deletions@ == Seq::<Deletion>::empty(),
    { DeletionsBacklog { deletions: VxDeque::default() } }
}
impl Item for Insertion {
    open spec fn ienc(&self, out: Seq<u8>) -> bool {
        out == self.anchor.bytes() + ((self.text.range.start as u64).vi_enc() + (((self.text.range.end - self.text.range.start) as u64).vi_enc()
            + (self.run_ts.vi_enc() + self.lamport_ts.vi_enc())))
    }
    open spec fn idec(id: u64, b: Seq<u8>) -> Option<(Insertion, Seq<u8>)> {
        match InnerAnchor::dec(b) {
            None => None,
            Some((anchor, b)) => match usize::dec(b) {
                None => None,
                Some((start, b)) => match usize::dec(b) {
                    None => None,
                    Some((len, b)) => match u64::dec(b) {
                        None => None,
                        Some((run_ts, b)) => match u64::dec(b) {
                            None => None,
                            Some((lamport_ts, b)) => if start + len > usize::MAX { None } else {
                                Some((Insertion { anchor, text: Text { inserted_by: id, range: start..(start + len) as usize }, run_ts, lamport_ts }, b))
                            },
                        },
                    },
                },
            },
        }
    }
    open spec fn iok(&self, id: u64) -> bool {
        &&& self.text.inserted_by == id
        &&& self.text.range.start <= self.text.range.end
    }
    proof fn irt(&self, id: u64, out: Seq<u8>, rest: Seq<u8>) {
        broadcast use seq_assoc;
        let a = self.anchor.bytes();
        let len = (self.text.range.end - self.text.range.start) as usize;
        let (b, c) = ((self.text.range.start as u64).vi_enc(), (len as u64).vi_enc());
        let (d, e) = (self.run_ts.vi_enc(), self.lamport_ts.vi_enc());
        assert(out + rest =~= a + (b + (c + (d + (e + rest)))));
        inner_rt(self.anchor, a, b + (c + (d + (e + rest))));
        usize_rt(self.text.range.start, b, c + (d + (e + rest)));
        usize_rt(len, c, d + (e + rest));
        u64_rt(self.run_ts, d, e + rest);
        u64_rt(self.lamport_ts, e, rest);
    }
}
impl Item for Deletion {
    open spec fn ienc(&self, out: Seq<u8>) -> bool {
        exists|m: Seq<u8>| #[trigger] self.version_map.enc(m)
            && out == self.start.bytes() + (self.end.bytes() + (m + self.deletion_ts.vi_enc()))
    }
    open spec fn idec(id: u64, b: Seq<u8>) -> Option<(Deletion, Seq<u8>)> {
        match InnerAnchor::dec(b) {
            None => None,
            Some((start, b)) => match InnerAnchor::dec(b) {
                None => None,
                Some((end, b)) => match BaseMap::<usize>::dec(b) {
                    None => None,
                    Some((version_map, b)) => match u64::dec(b) {
                        None => None,
                        Some((deletion_ts, b)) => Some((Deletion { start, end, version_map, deletion_ts }, b)),
                    },
                },
            },
        }
    }
    open spec fn iok(&self, id: u64) -> bool { true }
    proof fn irt(&self, id: u64, out: Seq<u8>, rest: Seq<u8>) {
        broadcast use seq_assoc;
        let m = choose|m: Seq<u8>| #[trigger] self.version_map.enc(m)
            && out == self.start.bytes() + (self.end.bytes() + (m + self.deletion_ts.vi_enc()));
        let (a, b, d) = (self.start.bytes(), self.end.bytes(), self.deletion_ts.vi_enc());
        assert(out + rest =~= a + (b + (m + (d + rest))));
        inner_rt(self.start, a, b + (m + (d + rest)));
        inner_rt(self.end, b, m + (d + rest));
        BaseMap::<usize>::rt(self.version_map, m, d + rest);
        u64_rt(self.deletion_ts, d, rest);
    }
}
impl Queue for InsertionsBacklog {
    type T = Insertion;
    open spec fn items(&self) -> Seq<Insertion> { self.insertions@ }
    open spec fn make(s: Seq<Insertion>) -> Self { InsertionsBacklog { insertions: VxDeque::of(s) } }
    proof fn make_items(s: Seq<Insertion>) { broadcast use VxDeque::view_of; }
}
impl Queue for DeletionsBacklog {
    type T = Deletion;
    open spec fn items(&self) -> Seq<Deletion> { self.deletions@ }
    open spec fn make(s: Seq<Deletion>) -> Self { DeletionsBacklog { deletions: VxDeque::of(s) } }
    proof fn make_items(s: Seq<Deletion>) { broadcast use VxDeque::view_of; }
}
%file backlog.rs
%impl InsertionsBacklog
%fn iter
%sigsub impl Iterator<Item = &Insertion> + '_ =>> &VxDeque<Insertion>
%sub self.insertions.iter() =>> &self.insertions
    ensures *r == self.insertions,
%fn len
    ensures r == self.insertions@.len(),
%fn push
    ensures final(self).insertions@ == old(self).insertions@.push(insertion),
%impl DeletionsBacklog
%fn iter
%sigsub impl Iterator<Item = &Deletion> + '_ =>> &VxDeque<Deletion>
%sub self.deletions.iter() =>> &self.deletions
    ensures *r == self.deletions,
%fn len
    ensures r == self.deletions@.len(),
%fn push
    ensures final(self).deletions@ == old(self).deletions@.push(deletion),
%impl ReplicaIdInsertions<'a>
%fn new
    ensures r.replica_id == replica_id, r.insertions == insertions,
%impl ReplicaIdDeletions<'a>
%fn new
    ensures r.replica_id == replica_id, r.deletions == deletions,
%impl Encode for ReplicaIdInsertions<'_>
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { queue_enc(self.replica_id, self.insertions.insertions@, out) }
    open spec fn enc_ok(&self) -> bool {
        forall|i: int| 0 <= i < self.insertions.insertions@.len() ==> (#[trigger] self.insertions.insertions@[i]).text.range.start <= self.insertions.insertions@[i].text.range.end
    }
%fn encode
%sub for $p in $c.iter() { $b } =>> let vx_list = $c.iter(); let mut vx_i: usize = 0; while vx_i < vx_list.len() { let $p = vx_list.vx_at(vx_i); $b vx_i += 1; }
%sub range.len() =>> (range.end - range.start)
%at start
    let ghost b0 = buf@;
%before let vx_list
    let ghost b1 = buf@;
    let ghost mut e: Seq<u8> = seq![];
    let ghost s = self.insertions.insertions@;
%loop 0
    invariant
        s == self.insertions.insertions@,
        vx_list@ == s,
        vx_i <= s.len(),
        items_enc(s.take(vx_i as int), e),
        buf@ == b1 + e,
        self.enc_ok(),
    decreases s.len() - vx_i,
%at loopstart 0
    let ghost b2 = buf@;
    let ghost e0 = e;
%at loopend 0
    proof {
        let v = s[vx_i - 1];
        let x = v.anchor.bytes() + ((v.text.range.start as u64).vi_enc() + (((v.text.range.end - v.text.range.start) as u64).vi_enc()
            + (v.run_ts.vi_enc() + v.lamport_ts.vi_enc())));
        assert(buf@ =~= b2 + x);
        e = e0 + x;
        assert(buf@ =~= b1 + e);
        items_push(s, (vx_i - 1) as int, e0, x);
    }
%at end
    proof {
        assert(s.take(s.len() as int) =~= s);
        let o = self.replica_id.vi_enc() + ((s.len() as u64).vi_enc() + e);
        assert(queue_enc(self.replica_id, s, o));
        assert(self.enc(o));
        assert(buf@ =~= b0 + o);
    }
%impl Encode for ReplicaIdDeletions<'_>
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { queue_enc(self.replica_id, self.deletions.deletions@, out) }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%sub for $p in $c.iter() { $b } =>> let vx_list = $c.iter(); let mut vx_i: usize = 0; while vx_i < vx_list.len() { let $p = vx_list.vx_at(vx_i); $b vx_i += 1; }
%at start
    let ghost b0 = buf@;
%before let vx_list
    let ghost b1 = buf@;
    let ghost mut e: Seq<u8> = seq![];
    let ghost s = self.deletions.deletions@;
%loop 0
    invariant
        s == self.deletions.deletions@,
        vx_list@ == s,
        vx_i <= s.len(),
        items_enc(s.take(vx_i as int), e),
        buf@ == b1 + e,
    decreases s.len() - vx_i,
%at loopstart 0
    let ghost b2 = buf@;
    let ghost e0 = e;
%at loopend 0
    proof {
        let v = s[vx_i - 1];
        let m = choose|m: Seq<u8>| v.version_map.enc(m) && buf@ == b2 + v.start.bytes() + v.end.bytes() + m + v.deletion_ts.vi_enc();
        let x = v.start.bytes() + (v.end.bytes() + (m + v.deletion_ts.vi_enc()));
        assert(buf@ =~= b2 + x);
        e = e0 + x;
        assert(buf@ =~= b1 + e);
        assert(v.ienc(x));
        items_push(s, (vx_i - 1) as int, e0, x);
    }
%at end
    proof {
        assert(s.take(s.len() as int) =~= s);
        let o = self.replica_id.vi_enc() + ((s.len() as u64).vi_enc() + e);
        assert(queue_enc(self.replica_id, s, o));
        assert(self.enc(o));
        assert(buf@ =~= b0 + o);
    }
%impl DecodeWithCtx for ReplicaIdInsertions<'_>
%ghost
    open spec fn decx(b: Seq<u8>, c: ReplicaIdMap<InsertionsBacklog>) -> Option<((), ReplicaIdMap<InsertionsBacklog>, Seq<u8>)> {
        match queue_dec::<InsertionsBacklog>(b, c@) {
            None => None,
            Some((m, rest)) => Some(((), ReplicaIdMap::of(m), rest)),
        }
    }
%fn decode
%attr #[verifier::loop_isolation(false)]
%sub for _ in 0..$n { $b } =>> for vx_i in 0..$n { $b }
%at start
    broadcast use ReplicaIdMap::of_view, VxDeque::of_view;
%before for vx_i
    let ghost b0 = buf@;
%loop 0
    invariant
        items_dec::<Insertion>(replica_id, b0, num_insertions as nat, Seq::empty()) == items_dec::<Insertion>(replica_id, buf@, (num_insertions - vx_i) as nat, insertions.insertions@),
%impl DecodeWithCtx for ReplicaIdDeletions<'_>
%ghost
    open spec fn decx(b: Seq<u8>, c: ReplicaIdMap<DeletionsBacklog>) -> Option<((), ReplicaIdMap<DeletionsBacklog>, Seq<u8>)> {
        match queue_dec::<DeletionsBacklog>(b, c@) {
            None => None,
            Some((m, rest)) => Some(((), ReplicaIdMap::of(m), rest)),
        }
    }
%fn decode
%attr #[verifier::loop_isolation(false)]
%sub for _ in 0..$n { $b } =>> for vx_i in 0..$n { $b }
%at start
    broadcast use ReplicaIdMap::of_view, VxDeque::of_view;
%before for vx_i
    let ghost b0 = buf@;
%loop 0
    invariant
        items_dec::<Deletion>(replica_id, b0, num_deletions as nat, Seq::empty()) == items_dec::<Deletion>(replica_id, buf@, (num_deletions - vx_i) as nat, deletions.deletions@),
%impl Encode for Backlog
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool {
        exists|a: Seq<u8>, b: Seq<u8>| #[trigger] queues_enc_all(self.insertions@, a) && #[trigger] queues_enc_all(self.deletions@, b) && out == a + b
    }
    open spec fn enc_ok(&self) -> bool {
        &&& self.wf()
        &&& forall|id: u64, i: int| #![trigger self.ins(id)[i]] 0 <= i < self.ins(id).len() ==> self.ins(id)[i].text.range.start <= self.ins(id)[i].text.range.end
    }
%fn encode
%sub for $p in &self.insertions { $b } =>> let vx_list = self.insertions.entries(); let mut vx_i: usize = 0; while vx_i < vx_list.len() { let $p = vx_list[vx_i]; $b vx_i += 1; }
%sub for $p in &self.deletions { $b } =>> let vx_list2 = self.deletions.entries(); let mut vx_j: usize = 0; while vx_j < vx_list2.len() { let $p = vx_list2[vx_j]; $b vx_j += 1; }
%at start
    let ghost b0 = buf@;
%before let vx_list
    let ghost b1 = buf@;
    let ghost mut e: Seq<u8> = seq![];
%before let mut vx_i
    let ghost keys = vx_keys(vx_list@);
%loop 0
    invariant
        keys == vx_keys(vx_list@),
        keys.no_duplicates(),
        keys.to_set() == self.insertions@.dom(),
        vx_i <= vx_list@.len(),
        keys.len() == vx_list@.len(),
        forall|i: int| 0 <= i < vx_list@.len() ==> *(#[trigger] vx_list@[i]).1 == self.insertions@[*vx_list@[i].0],
        queues_enc(keys.take(vx_i as int), self.insertions@, e),
        buf@ == b1 + e,
        self.enc_ok(),
    decreases vx_list@.len() - vx_i,
%at loopstart 0
    let ghost b2 = buf@;
    let ghost e0 = e;
    proof {
        let id = keys[vx_i as int];
        assert(id == *vx_list@[vx_i as int].0);
        assert(keys.to_set().contains(id));
        assert(self.ins(id) == self.insertions@[id].insertions@);
    }
%at loopend 0
    proof {
        let id = keys[vx_i - 1];
        let x = choose|x: Seq<u8>| queue_enc(id, self.insertions@[id].insertions@, x) && buf@ == b2 + x;
        e = e0 + x;
        assert(buf@ =~= b1 + e);
        queues_push(keys, self.insertions@, (vx_i - 1) as int, e0, x);
    }
%before (self.deletions.len()
    let ghost a = (keys.len() as u64).vi_enc() + e;
    proof {
        assert(keys.take(keys.len() as int) =~= keys);
        assert(queues_enc_all(self.insertions@, a));
        assert(buf@ =~= b0 + a);
    }
%before let vx_list2
    let ghost b3 = buf@;
    let ghost mut f: Seq<u8> = seq![];
%before let mut vx_j
    let ghost keys = vx_keys(vx_list2@);
%loop 1
    invariant
        keys == vx_keys(vx_list2@),
        keys.no_duplicates(),
        keys.to_set() == self.deletions@.dom(),
        vx_j <= vx_list2@.len(),
        keys.len() == vx_list2@.len(),
        forall|i: int| 0 <= i < vx_list2@.len() ==> *(#[trigger] vx_list2@[i]).1 == self.deletions@[*vx_list2@[i].0],
        queues_enc(keys.take(vx_j as int), self.deletions@, f),
        buf@ == b3 + f,
    decreases vx_list2@.len() - vx_j,
%at loopstart 1
    let ghost b4 = buf@;
    let ghost f0 = f;
    proof {
        let id = keys[vx_j as int];
        assert(id == *vx_list2@[vx_j as int].0);
        assert(keys.to_set().contains(id));
    }
%at loopend 1
    proof {
        let id = keys[vx_j - 1];
        let x = choose|x: Seq<u8>| queue_enc(id, self.deletions@[id].deletions@, x) && buf@ == b4 + x;
        f = f0 + x;
        assert(buf@ =~= b3 + f);
        queues_push(keys, self.deletions@, (vx_j - 1) as int, f0, x);
    }
%at end
    proof {
        assert(keys.take(keys.len() as int) =~= keys);
        let b = (keys.len() as u64).vi_enc() + f;
        assert(queues_enc_all(self.deletions@, b));
        assert(self.enc(a + b));
        assert(buf@ =~= b0 + (a + b));
    }
%impl Decode for Backlog
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(Backlog, Seq<u8>)> {
        match queues_dec_all::<InsertionsBacklog>(b) {
            None => None,
            Some((m, b)) => match queues_dec_all::<DeletionsBacklog>(b) {
                None => None,
                Some((n, b)) => Some((Backlog { insertions: ReplicaIdMap::of(m), deletions: ReplicaIdMap::of(n) }, b)),
            },
        }
    }
%fn decode
%attr #[verifier::loop_isolation(false)]
%sub for _ in 0..num_replicas { let $p = ReplicaIdInsertions $b } =>> for vx_i in 0..num_replicas { let $p = ReplicaIdInsertions $b }
%sub for _ in 0..num_replicas { let $p = ReplicaIdDeletions $b } =>> for vx_j in 0..num_replicas { let $p = ReplicaIdDeletions $b }
%at start
    broadcast use ReplicaIdMap::of_view, ReplicaIdMap::view_of;
%before for vx_i
    let ghost b0 = buf@;
%loop 0
    invariant
        queues_dec::<InsertionsBacklog>(b0, num_replicas as nat, Map::empty()) == queues_dec::<InsertionsBacklog>(buf@, (num_replicas - vx_i) as nat, insertions@),
%before for vx_j
    let ghost b1 = buf@;
%loop 1
    invariant
        queues_dec::<DeletionsBacklog>(b1, num_replicas as nat, Map::empty()) == queues_dec::<DeletionsBacklog>(buf@, (num_replicas - vx_j) as nat, deletions@),
%raw
/// C07, C15 for the backlog: what's decoded is what was encoded.
pub proof fn backlog_rt(v: Backlog, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.enc_ok(),
    ensures
        Backlog::dec(out + rest) is Some,
        Backlog::dec(out + rest)->Some_0.1 == rest,
        Backlog::dec(out + rest)->Some_0.0.same(&v),
        Backlog::dec(out + rest)->Some_0.0.wf(),
{
    broadcast use seq_assoc, ReplicaIdMap::of_view, ReplicaIdMap::view_of;
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] queues_enc_all(v.insertions@, a) && #[trigger] queues_enc_all(v.deletions@, b) && out == a + b;
    assert(out + rest =~= a + (b + rest));
    assert forall|id: u64, i: int| v.insertions@.contains_key(id) && 0 <= i < v.insertions@[id].items().len()
        implies (#[trigger] v.insertions@[id].items()[i]).iok(id) by {
        assert(v.ins(id) == v.insertions@[id].items());
        assert(ins_sorted(v.ins(id), id));
        let _ = v.ins(id)[i];
    }
    queues_all_rt(v.insertions@, a, b + rest);
    queues_all_rt(v.deletions@, b, rest);
    let w = Backlog::dec(out + rest)->Some_0.0;
    assert forall|id: u64| #[trigger] w.ins(id) == v.ins(id) by {}
    assert forall|id: u64| #[trigger] w.dels(id) == v.dels(id) by {}
    assert forall|id: u64| ins_sorted(#[trigger] w.ins(id), id) by { assert(ins_sorted(v.ins(id), id)); }
    assert forall|id: u64| del_sorted(#[trigger] w.dels(id), id) by { assert(del_sorted(v.dels(id), id)); }
}
