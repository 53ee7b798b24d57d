%use codec.vx
%use basemap.vx
%file version_map.rs
%item enum BaseMapDecodeError
%file deletion.rs
%item struct Anchors
%item enum AnchorsFlag
%item enum AnchorsFlagDecodeError
%item enum AnchorsDecodeError
%item enum DeletionDecodeError

%raw
/// Values whose encoding decodes to them.
pub trait RoundTrip: Encode + Decode<Value = Self> + Sized {
    proof fn rt(v: Self, out: Seq<u8>, rest: Seq<u8>)
        requires v.enc(out), v.enc_ok(),
        ensures Self::dec(out + rest) == Some((v, rest));
}
impl RoundTrip for u64 {
    proof fn rt(v: u64, out: Seq<u8>, rest: Seq<u8>) { u64_rt(v, out, rest); }
}
impl RoundTrip for usize {
    proof fn rt(v: usize, out: Seq<u8>, rest: Seq<u8>) { usize_rt(v, out, rest); }
}

pub open spec fn cat3(out: Seq<u8>, a: Seq<u8>, k: Seq<u8>, v: Seq<u8>) -> bool {
    out == a + (k + v)
}

/// `out` encodes the entries of `m` with these keys, in this order.
pub open spec fn entries_enc<T: Encode>(keys: Seq<u64>, m: Map<u64, T>, out: Seq<u8>) -> bool
    decreases keys.len(),
{
    if keys.len() == 0 {
        out.len() == 0
    } else {
        exists|a: Seq<u8>, k: Seq<u8>, v: Seq<u8>| {
            &&& #[trigger] cat3(out, a, k, v)
            &&& entries_enc(keys.drop_last(), m, a)
            &&& keys.last().enc(k)
            &&& m[keys.last()].enc(v)
        }
    }
}

/// The map made of the first `n` entries of `b` on top of `acc`.
pub open spec fn entries_dec<T: Decode<Value = T>>(b: Seq<u8>, n: nat, acc: Map<u64, T>)
    -> Option<(Map<u64, T>, Seq<u8>)>
    decreases n,
{
    if n == 0 {
        Some((acc, b))
    } else {
        match u64::dec(b) {
            None => None,
            Some((id, b)) => match T::dec(b) {
                None => None,
                Some((v, b)) => entries_dec(b, (n - 1) as nat, acc.insert(id, v)),
            },
        }
    }
}

/// What decoding an encoded list of entries does to `acc`.
pub open spec fn entries_put<T>(keys: Seq<u64>, m: Map<u64, T>, acc: Map<u64, T>) -> Map<u64, T>
    decreases keys.len(),
{
    if keys.len() == 0 { acc } else { entries_put(keys.drop_last(), m, acc).insert(keys.last(), m[keys.last()]) }
}

pub proof fn put_all<T>(keys: Seq<u64>, m: Map<u64, T>)
    ensures
        entries_put(keys, m, Map::empty()).dom() =~= keys.to_set(),
        forall|k: u64| keys.contains(k) ==> #[trigger] entries_put(keys, m, Map::empty())[k] == m[k],
    decreases keys.len(),
{
    if keys.len() > 0 {
        put_all(keys.drop_last(), m);
        assert forall|k: u64| keys.contains(k) == (keys.drop_last().contains(k) || k == keys.last()) by {
            if keys.contains(k) {
                let i = keys.index_of(k);
                if i < keys.len() - 1 { assert(keys.drop_last()[i] == k); }
            }
            if keys.drop_last().contains(k) {
                let i = keys.drop_last().index_of(k);
                assert(keys[i] == k);
            }
            if k == keys.last() { assert(keys[keys.len() - 1] == k); }
        }
    }
}

pub proof fn entries_rt<T: RoundTrip>(keys: Seq<u64>, m: Map<u64, T>, out: Seq<u8>, rest: Seq<u8>, j: nat, acc: Map<u64, T>)
    requires
        entries_enc(keys, m, out),
        forall|i: int| 0 <= i < keys.len() ==> m[#[trigger] keys[i]].enc_ok(),
    ensures
        entries_dec::<T>(out + rest, (keys.len() + j) as nat, acc) == entries_dec::<T>(rest, j, entries_put(keys, m, acc)),
    decreases keys.len(),
{
    broadcast use seq_assoc;
    if keys.len() == 0 {
        assert(out + rest =~= rest);
    } else {
        let (a, k, v) = choose|a: Seq<u8>, k: Seq<u8>, v: Seq<u8>| {
            &&& #[trigger] cat3(out, a, k, v)
            &&& entries_enc(keys.drop_last(), m, a)
            &&& keys.last().enc(k)
            &&& m[keys.last()].enc(v)
        };
        let id = keys.last();
        assert(out + rest =~= a + (k + (v + rest)));
        assert(keys[keys.len() - 1] == id);
        assert forall|i: int| 0 <= i < keys.drop_last().len() implies m[#[trigger] keys.drop_last()[i]].enc_ok() by {
            assert(keys[i] == keys.drop_last()[i]);
        }
        entries_rt(keys.drop_last(), m, a, k + (v + rest), j + 1, acc);
        u64_rt(id, k, v + rest);
        T::rt(m[id], v, rest);
        let acc2 = entries_put(keys.drop_last(), m, acc);
        assert(entries_dec::<T>(k + (v + rest), j + 1, acc2) == entries_dec::<T>(rest, j, acc2.insert(id, m[id])));
    }
}

impl<T> BaseMap<T> {
    pub open spec fn make(this_id: u64, this_value: T, m: Map<u64, T>) -> BaseMap<T> {
        BaseMap { this_id, this_value, rest: ReplicaIdMap::of(m) }
    }
}

%file version_map.rs
%impl Encode for BaseMap<T>
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool {
        exists|v: Seq<u8>, keys: Seq<u64>, e: Seq<u8>| {
            &&& out == self.this_id.vi_enc() + (v + ((keys.len() as u64).vi_enc() + e))
            &&& #[trigger] self.this_value.enc(v)
            &&& keys.no_duplicates()
            &&& keys.to_set() == self.rest@.dom()
            &&& keys.len() <= u64::MAX
            &&& #[trigger] entries_enc(keys, self.rest@, e)
        }
    }
    open spec fn enc_ok(&self) -> bool {
        &&& self.this_value.enc_ok()
        &&& forall|k: u64| self.rest@.contains_key(k) ==> (#[trigger] self.rest@[k]).enc_ok()
    }
%fn encode
%sub for ($k, $v) in self.rest.iter() { $b } =>> let vx_list = self.rest.entries(); let mut vx_i: usize = 0; while vx_i < vx_list.len() { let ($k, $v) = (vx_list[vx_i].0, vx_list[vx_i].1); $b vx_i += 1; }
%at start
    let ghost b0 = buf@;
%after self.this_value.encode
    let ghost v = choose|v: Seq<u8>| self.this_value.enc(v) && buf@ == b0 + self.this_id.vi_enc() + v;
%before let vx_list
    let ghost b1 = buf@;
    let ghost mut e: Seq<u8> = seq![];
%before let mut vx_i
    let ghost keys = vx_keys(vx_list@);
%loop 0
    invariant
        keys == vx_keys(vx_list@),
        keys.no_duplicates(),
        keys.to_set() == self.rest@.dom(),
        vx_i <= vx_list@.len(),
        keys.len() == vx_list@.len(),
        forall|i: int| 0 <= i < vx_list@.len() ==> *(#[trigger] vx_list@[i]).1 == self.rest@[*vx_list@[i].0],
        entries_enc(keys.take(vx_i as int), self.rest@, e),
        buf@ == b1 + e,
        self.enc_ok(),
    decreases vx_list@.len() - vx_i,
%at loopstart 0
    let ghost b2 = buf@;
    let ghost e0 = e;
    proof {
        assert(keys[vx_i as int] == *vx_list@[vx_i as int].0);
        assert(keys.to_set().contains(keys[vx_i as int]));
    }
%at loopend 0
    proof {
        let id = keys[vx_i - 1];
        let k = id.vi_enc();
        let x = choose|x: Seq<u8>| self.rest@[id].enc(x) && buf@ == b2 + k + x;
        e = e0 + (k + x);
        assert(buf@ =~= b1 + e);
        let ks = keys.take(vx_i as int);
        assert(ks.drop_last() =~= keys.take(vx_i - 1));
        assert(ks.last() == id);
        assert(id.enc(k));
        assert(cat3(e, e0, k, x));
        assert(entries_enc(ks.drop_last(), self.rest@, e0));
        assert(entries_enc(ks, self.rest@, e));
    }
%at end
    proof {
        assert(keys.take(keys.len() as int) =~= keys);
        assert(buf@ =~= b0 + (self.this_id.vi_enc() + (v + ((keys.len() as u64).vi_enc() + e))));
        assert(self.enc(self.this_id.vi_enc() + (v + ((keys.len() as u64).vi_enc() + e))));
    }

%impl From<IntDecodeError> for BaseMapDecodeError<T>
%fn from
%raw
impl<T: Decode> vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for BaseMapDecodeError<T> {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
%impl Decode for BaseMap<T>
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(BaseMap<T>, Seq<u8>)> {
        match u64::dec(b) {
            None => None,
            Some((this_id, b)) => match T::dec(b) {
                None => None,
                Some((this_value, b)) => match u64::dec(b) {
                    None => None,
                    Some((n, b)) => match entries_dec::<T>(b, n as nat, Map::empty()) {
                        None => None,
                        Some((m, b)) => Some((BaseMap::make(this_id, this_value, m), b)),
                    },
                },
            },
        }
    }
%fn decode
%attr #[verifier::loop_isolation(false)]
%sub for _ in 0..$n { $b } =>> for vx_i in 0..$n { $b }
%at start
    broadcast use ReplicaIdMap::of_view;
%before for vx_i
    let ghost b0 = buf@;
%loop 0
    invariant
        entries_dec::<T>(b0, rest_len as nat, Map::empty()) == entries_dec::<T>(buf@, (rest_len - vx_i) as nat, rest@),
%raw
pub proof fn basemap_rt<T: RoundTrip>(v: BaseMap<T>, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.enc_ok(),
    ensures BaseMap::<T>::dec(out + rest) == Some((v, rest)),
{
    broadcast use ReplicaIdMap::of_view, seq_assoc;
    let (x, keys, e) = choose|x: Seq<u8>, keys: Seq<u64>, e: Seq<u8>| {
        &&& out == v.this_id.vi_enc() + (x + ((keys.len() as u64).vi_enc() + e))
        &&& #[trigger] v.this_value.enc(x)
        &&& keys.no_duplicates()
        &&& keys.to_set() == v.rest@.dom()
        &&& keys.len() <= u64::MAX
        &&& #[trigger] entries_enc(keys, v.rest@, e)
    };
    let a = v.this_id.vi_enc();
    let n = (keys.len() as u64).vi_enc();
    assert(out + rest =~= a + (x + (n + (e + rest))));
    u64_rt(v.this_id, a, x + (n + (e + rest)));
    T::rt(v.this_value, x, n + (e + rest));
    u64_rt(keys.len() as u64, n, e + rest);
    assert forall|i: int| 0 <= i < keys.len() implies v.rest@[#[trigger] keys[i]].enc_ok() by {
        assert(keys.to_set().contains(keys[i]));
    }
    entries_rt(keys, v.rest@, e, rest, 0, Map::empty());
    put_all(keys, v.rest@);
    assert(entries_put(keys, v.rest@, Map::empty()) =~= v.rest@) by {
        assert forall|k: u64| v.rest@.contains_key(k) implies entries_put(keys, v.rest@, Map::empty())[k] == v.rest@[k] by {
            assert(keys.to_set().contains(k));
        }
    }
}

// ------------------------------------------------ deletion.rs
%raw
impl RoundTrip for BaseMap<Length> {
    proof fn rt(v: Self, out: Seq<u8>, rest: Seq<u8>) { basemap_rt(v, out, rest); }
}
pub open spec fn flag_of(start: InnerAnchor, end: InnerAnchor) -> AnchorsFlag {
    if start.replica_id != end.replica_id {
        AnchorsFlag::DifferentReplicaIds
    } else if start.contained_in != end.contained_in {
        AnchorsFlag::SameReplicaId
    } else {
        AnchorsFlag::SameReplicaIdAndRunTs
    }
}
pub open spec fn flag_byte(f: AnchorsFlag) -> u8 {
    match f {
        AnchorsFlag::DifferentReplicaIds => 0,
        AnchorsFlag::SameReplicaId => 1,
        AnchorsFlag::SameReplicaIdAndRunTs => 2,
    }
}
/// Every deletion a replica creates or forwards satisfies this: within one
/// run, the end is not before the start.
pub open spec fn anchors_wf(start: InnerAnchor, end: InnerAnchor) -> bool {
    flag_of(start, end) is SameReplicaIdAndRunTs ==> start.offset <= end.offset
}
pub open spec fn anchors_bytes(start: InnerAnchor, end: InnerAnchor) -> Seq<u8> {
    let f = flag_of(start, end);
    seq![flag_byte(f)] + match f {
        AnchorsFlag::DifferentReplicaIds => start.bytes() + end.bytes(),
        AnchorsFlag::SameReplicaId => start.bytes() + (end.contained_in.vi_enc() + (end.offset as u64).vi_enc()),
        AnchorsFlag::SameReplicaIdAndRunTs => start.bytes() + ((end.offset - start.offset) as u64).vi_enc(),
    }
}
%file deletion.rs
%impl Anchors<'a>
%fn new
    ensures r.start == start, r.end == end,
%impl AnchorsFlag
%fn from_anchors
    ensures r == flag_of(*anchors.start, *anchors.end),
%impl Encode for AnchorsFlag
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == seq![flag_byte(*self)] }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        let o = seq![flag_byte(*self)];
        assert(self.enc(o));
        assert(buf@ =~= old(buf)@ + o);
    }
%impl Decode for AnchorsFlag
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(AnchorsFlag, Seq<u8>)> {
        if b.len() == 0 || b[0] > 2 {
            None
        } else {
            Some((
                if b[0] == 0 {
                    AnchorsFlag::DifferentReplicaIds
                } else if b[0] == 1 {
                    AnchorsFlag::SameReplicaId
                } else {
                    AnchorsFlag::SameReplicaIdAndRunTs
                },
                b.subrange(1, b.len() as int),
            ))
        }
    }
%fn decode
%impl From<IntDecodeError> for AnchorsDecodeError
%fn from
%impl From<AnchorsFlagDecodeError> for AnchorsDecodeError
%fn from
%impl From<AnchorsDecodeError> for DeletionDecodeError
%fn from
%impl From<IntDecodeError> for DeletionDecodeError
%fn from
%impl From<BaseMapDecodeError<Length>> for DeletionDecodeError
%fn from
%raw
impl vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for AnchorsDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<AnchorsFlagDecodeError> for AnchorsDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: AnchorsFlagDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<AnchorsDecodeError> for DeletionDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: AnchorsDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for DeletionDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<BaseMapDecodeError<Length>> for DeletionDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BaseMapDecodeError<Length>) -> Self;
}
%impl Encode for Anchors<'_>
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == anchors_bytes(*self.start, *self.end) }
    open spec fn enc_ok(&self) -> bool { anchors_wf(*self.start, *self.end) }
%fn encode
%at end
    proof {
        let o = anchors_bytes(*self.start, *self.end);
        assert(self.enc(o));
        assert(buf@ =~= old(buf)@ + o);
    }
%impl Decode for Anchors<'_>
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<((InnerAnchor, InnerAnchor), Seq<u8>)> {
        match AnchorsFlag::dec(b) {
            None => None,
            Some((AnchorsFlag::DifferentReplicaIds, b)) => match InnerAnchor::dec(b) {
                None => None,
                Some((start, b)) => match InnerAnchor::dec(b) {
                    None => None,
                    Some((end, b)) => Some(((start, end), b)),
                },
            },
            Some((AnchorsFlag::SameReplicaId, b)) => match InnerAnchor::dec(b) {
                None => None,
                Some((start, b)) => match u64::dec(b) {
                    None => None,
                    Some((run, b)) => match usize::dec(b) {
                        None => None,
                        Some((off, b)) => Some((
                            (start, InnerAnchor { replica_id: start.replica_id, contained_in: run, offset: off }),
                            b,
                        )),
                    },
                },
            },
            Some((AnchorsFlag::SameReplicaIdAndRunTs, b)) => match InnerAnchor::dec(b) {
                None => None,
                Some((start, b)) => match usize::dec(b) {
                    None => None,
                    Some((len, b)) => if start.offset + len > usize::MAX {
                        None
                    } else {
                        Some((
                            (start, InnerAnchor { offset: (start.offset + len) as usize, ..start }),
                            b,
                        ))
                    },
                },
            },
        }
    }
%fn decode
%impl Encode for Deletion
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool {
        exists|m: Seq<u8>| #[trigger] self.version_map.enc(m)
            && out == anchors_bytes(self.start, self.end) + (m + self.deletion_ts.vi_enc())
    }
    open spec fn enc_ok(&self) -> bool {
        anchors_wf(self.start, self.end) && self.version_map.enc_ok()
    }
%fn encode
%at start
    let ghost b0 = buf@;
%before self.version_map.encode
    let ghost b1 = buf@;
%before self.deletion_ts.encode
    let ghost m = choose|m: Seq<u8>| self.version_map.enc(m) && buf@ == b1 + m;
%at end
    proof {
        let o = anchors_bytes(self.start, self.end) + (m + self.deletion_ts.vi_enc());
        assert(self.enc(o));
        assert(buf@ =~= b0 + o);
    }
%impl Decode for Deletion
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(Deletion, Seq<u8>)> {
        match Anchors::dec(b) {
            None => None,
            Some(((start, end), b)) => match VersionMap::dec(b) {
                None => None,
                Some((version_map, b)) => match u64::dec(b) {
                    None => None,
                    Some((deletion_ts, b)) => Some((Deletion { start, end, version_map, deletion_ts }, b)),
                },
            },
        }
    }
%fn decode
%raw
pub proof fn anchors_rt(start: InnerAnchor, end: InnerAnchor, rest: Seq<u8>)
    requires anchors_wf(start, end),
    ensures Anchors::dec(anchors_bytes(start, end) + rest) == Some(((start, end), rest)),
{
    broadcast use seq_assoc;
    let f = flag_of(start, end);
    let b = anchors_bytes(start, end) + rest;
    let r0 = b.subrange(1, b.len() as int);
    match f {
        AnchorsFlag::DifferentReplicaIds => {
            assert(r0 =~= start.bytes() + (end.bytes() + rest));
            inner_rt(start, start.bytes(), end.bytes() + rest);
            inner_rt(end, end.bytes(), rest);
        },
        AnchorsFlag::SameReplicaId => {
            let x = end.contained_in.vi_enc();
            let y = (end.offset as u64).vi_enc();
            assert(r0 =~= start.bytes() + (x + (y + rest)));
            inner_rt(start, start.bytes(), x + (y + rest));
            u64_rt(end.contained_in, x, y + rest);
            usize_rt(end.offset, y, rest);
        },
        AnchorsFlag::SameReplicaIdAndRunTs => {
            let y = ((end.offset - start.offset) as u64).vi_enc();
            assert(r0 =~= start.bytes() + (y + rest));
            inner_rt(start, start.bytes(), y + rest);
            usize_rt((end.offset - start.offset) as usize, y, rest);
        },
    }
}

/// C08 for deletions.
pub proof fn deletion_rt(v: Deletion, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.enc_ok(),
    ensures Deletion::dec(out + rest) == Some((v, rest)),
{
    broadcast use seq_assoc;
    let m = choose|m: Seq<u8>| #[trigger] v.version_map.enc(m)
        && out == anchors_bytes(v.start, v.end) + (m + v.deletion_ts.vi_enc());
    let a = anchors_bytes(v.start, v.end);
    let t = v.deletion_ts.vi_enc();
    assert(out + rest =~= a + (m + (t + rest)));
    anchors_rt(v.start, v.end, m + (t + rest));
    basemap_rt(v.version_map, m, t + rest);
    u64_rt(v.deletion_ts, t, rest);
}

// C08, as code: what is encoded decodes to an equal value.
pub fn c08_insertion(x: &Insertion)
    requires x.enc_ok(),
{
    let mut buf: Vec<u8> = Vec::new();
    x.encode(&mut buf);
    proof {
        let o = choose|o: Seq<u8>| x.enc(o) && buf@ == Seq::<u8>::empty() + o;
        assert(buf@ =~= o + Seq::<u8>::empty());
        insertion_rt(*x, o, Seq::empty());
    }
    match Insertion::decode(&buf) {
        Ok((y, rest)) => { assert(y == *x && rest@.len() == 0); },
        Err(_) => { assert(false); },
    }
}
pub fn c08_deletion(x: &Deletion)
    requires x.enc_ok(),
{
    let mut buf: Vec<u8> = Vec::new();
    x.encode(&mut buf);
    proof {
        let o = choose|o: Seq<u8>| x.enc(o) && buf@ == Seq::<u8>::empty() + o;
        assert(buf@ =~= o + Seq::<u8>::empty());
        deletion_rt(*x, o, Seq::empty());
    }
    match Deletion::decode(&buf) {
        Ok((y, rest)) => { assert(y == *x && rest@.len() == 0); },
        Err(_) => { assert(false); },
    }
}
pub fn c08_anchor(x: &Anchor)
{
    let mut buf: Vec<u8> = Vec::new();
    x.encode(&mut buf);
    proof {
        let o = choose|o: Seq<u8>| x.enc(o) && buf@ == Seq::<u8>::empty() + o;
        assert(buf@ =~= o + Seq::<u8>::empty());
        anchor_rt(*x, o, Seq::empty());
    }
    match Anchor::decode(&buf) {
        Ok((y, rest)) => { assert(y == *x && rest@.len() == 0); },
        Err(_) => { assert(false); },
    }
}
