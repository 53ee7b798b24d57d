// The encoding of a replica, and its envelope.
%import backcodec.vx
%import replica.vx
%file lib.rs
%item type ProtocolVersion
%item const PROTOCOL_VERSION
%file encoded_replica.rs
%alias Sha256 VxSha
%item type Checksum
%item const CHECKSUM_LEN =size_of::<Checksum>()=32
%item enum DecodeError -Clone -PartialEq -Eq
%item enum Bytes -Clone
%item struct EncodedReplica -Clone
%file replica.rs
%item enum ReplicaDecodeError
%raw
// ------------------------------------------------ assumed: SHA-256, slices
/// SHA-256, a function of bytes.
pub uninterp spec fn sha(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_split_at(b: &[u8], n: usize) -> (r: (&[u8], &[u8]))
    requires n <= b@.len(),
    ensures r.0@ == b@.take(n as int), r.1@ == b@.skip(n as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_from(b: &Vec<u8>, n: usize) -> (r: &[u8])
    requires n <= b@.len(),
    ensures r@ == b@.skip(n as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_ne(a: &[u8], b: [u8; 32]) -> (r: bool)
    ensures r == (a@ != b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_copy(b: &mut Vec<u8>, from: usize, to: usize, src: &[u8; 32])
    requires from <= to <= old(b)@.len(), to - from == 32,
    ensures final(b)@ == old(b)@.take(from as int) + src@ + old(b)@.skip(to as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_boxed(b: Vec<u8>) -> (r: Box<[u8]>)
    ensures r@ == b@,
{ unimplemented!() }
// ------------------------------------------------ assumed: the tree's encoding
pub struct RunTreeDecodeError;
impl Encode for RunTree {
    uninterp spec fn enc(&self, out: Seq<u8>) -> bool;
    open spec fn enc_ok(&self) -> bool { self.wf() }
    #[verifier::external_body]
    fn encode(&self, buf: &mut Vec<u8>) { unimplemented!() }
}
impl Decode for RunTree {
    type Value = Self;
    type Error = RunTreeDecodeError;
    uninterp spec fn dec(b: Seq<u8>) -> Option<(RunTree, Seq<u8>)>;
    #[verifier::external_body]
    fn decode(buf: &[u8]) -> (r: Result<(Self, &[u8]), RunTreeDecodeError>) { unimplemented!() }
}
#[verifier::external_body]
pub proof fn runtree_rt(v: RunTree, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.wf(),
    ensures
        RunTree::dec(out + rest) is Some,
        RunTree::dec(out + rest)->Some_0.1 == rest,
        RunTree::dec(out + rest)->Some_0.0.wf(),
        RunTree::dec(out + rest)->Some_0.0.chars() == v.chars(),
        RunTree::dec(out + rest)->Some_0.0.nruns() == v.nruns(),
{}
%file replica.rs
%impl Encode for LamportClock
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.0.vi_enc() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        assert(self.0.enc(self.0.vi_enc()));
        assert(self.enc(self.0.vi_enc()));
    }
%impl Decode for LamportClock
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(LamportClock, Seq<u8>)> {
        match u64::dec(b) { None => None, Some((n, b)) => Some((LamportClock(n), b)) }
    }
%fn decode
%impl From<BacklogDecodeError> for ReplicaDecodeError
%fn from
%impl From<BaseMapDecodeError<DeletionTs>> for ReplicaDecodeError
%fn from
%impl From<IntDecodeError> for ReplicaDecodeError
%fn from
%impl From<RunTreeDecodeError> for ReplicaDecodeError
%fn from
%impl From<BaseMapDecodeError<Length>> for ReplicaDecodeError
%fn from
%raw
impl vstd::std_specs::convert::FromSpecImpl<BacklogDecodeError> for ReplicaDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BacklogDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<BaseMapDecodeError<DeletionTs>> for ReplicaDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BaseMapDecodeError<DeletionTs>) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for ReplicaDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<RunTreeDecodeError> for ReplicaDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: RunTreeDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<BaseMapDecodeError<Length>> for ReplicaDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BaseMapDecodeError<Length>) -> Self;
}
impl RoundTrip for BaseMap<DeletionTs> {
    proof fn rt(v: Self, out: Seq<u8>, rest: Seq<u8>) { basemap_rt(v, out, rest); }
}
impl Replica {
    /// `out` is the parts' encodings, one after the other.
    pub open spec fn parts(&self, out: Seq<u8>, a: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>) -> bool {
        &&& self.run_tree.enc(a)
        &&& self.version_map.enc(c)
        &&& self.deletion_map.enc(d)
        &&& self.backlog.enc(e)
        &&& out == a + (self.lamport_clock.0.vi_enc() + (c + (d + e)))
    }
    pub open spec fn insertions_fit(&self) -> bool {
        forall|id: u64, i: int| #![trigger self.backlog.ins(id)[i]] 0 <= i < self.backlog.ins(id).len() ==> self.backlog.ins(id)[i].text.range.start <= self.backlog.ins(id)[i].text.range.end
    }
}
%impl Encode for Replica
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool {
        exists|a: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] self.parts(out, a, c, d, e)
    }
    open spec fn enc_ok(&self) -> bool { self.wf() && self.insertions_fit() }
%fn encode
%at start
    let ghost b0 = buf@;
%after self.run_tree.encode
    let ghost a = choose|o: Seq<u8>| self.run_tree.enc(o) && buf@ == b0 + o;
    let ghost b1 = buf@;
%after self.lamport_clock.encode
    let ghost l = self.lamport_clock.0.vi_enc();
    let ghost b2 = buf@;
    assert(b2 == b1 + l);
%after self.version_map.encode
    let ghost c = choose|o: Seq<u8>| self.version_map.enc(o) && buf@ == b2 + o;
    let ghost b3 = buf@;
%after self.deletion_map.encode
    let ghost d = choose|o: Seq<u8>| self.deletion_map.enc(o) && buf@ == b3 + o;
    let ghost b4 = buf@;
%after self.backlog.encode
    let ghost e = choose|o: Seq<u8>| self.backlog.enc(o) && buf@ == b4 + o;
    proof {
        let o = a + (l + (c + (d + e)));
        assert(self.parts(o, a, c, d, e));
        assert(self.enc(o));
        assert(buf@ =~= b0 + o);
    }
%impl Decode for Replica
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<((RunTree, LamportClock, VersionMap, DeletionMap, Backlog), Seq<u8>)> {
        match RunTree::dec(b) {
            None => None,
            Some((t, b)) => match LamportClock::dec(b) {
                None => None,
                Some((l, b)) => match BaseMap::<usize>::dec(b) {
                    None => None,
                    Some((v, b)) => match BaseMap::<u64>::dec(b) {
                        None => None,
                        Some((d, b)) => match Backlog::dec(b) {
                            None => None,
                            Some((k, b)) => Some(((t, l, v, d, k), b)),
                        },
                    },
                },
            },
        }
    }
%fn decode
%raw
/// What decoding an encoded replica gives back.
pub open spec fn unchanged(v: Replica, t: (RunTree, LamportClock, VersionMap, DeletionMap, Backlog)) -> bool {
    &&& t.0.wf() && t.0.chars() == v.chars() && t.0.nruns() == v.run_tree.nruns()
    &&& t.1 == v.lamport_clock
    &&& t.2 == v.version_map
    &&& t.3 == v.deletion_map
    &&& t.4.same(&v.backlog) && t.4.wf()
}
pub proof fn replica_rt(v: Replica, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.enc_ok(),
    ensures
        Replica::dec(out + rest) is Some,
        Replica::dec(out + rest)->Some_0.1 == rest,
        unchanged(v, Replica::dec(out + rest)->Some_0.0),
{
    broadcast use seq_assoc;
    let (a, c, d, e) = choose|a: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] v.parts(out, a, c, d, e);
    let l = v.lamport_clock.0.vi_enc();
    assert(out + rest =~= a + (l + (c + (d + (e + rest)))));
    runtree_rt(v.run_tree, a, l + (c + (d + (e + rest))));
    u64_rt(v.lamport_clock.0, l, c + (d + (e + rest)));
    BaseMap::<usize>::rt(v.version_map, c, d + (e + rest));
    BaseMap::<u64>::rt(v.deletion_map, d, e + rest);
    backlog_rt(v.backlog, e, rest);
}
// ------------------------------------------------ the envelope
impl<'a> Bytes<'a> {
    pub open spec fn view(&self) -> Seq<u8> {
        match self { Bytes::Owned(b) => b@, Bytes::Borrowed(b) => b@ }
    }
}
/// What the bytes of an encoded replica are worth.
pub open spec fn opened(b: Seq<u8>) -> Result<(RunTree, LamportClock, VersionMap, DeletionMap, Backlog), DecodeError> {
    match u64::dec(b) {
        None => Err(DecodeError::InvalidData),
        Some((version, b)) => {
            if version != PROTOCOL_VERSION {
                Err(DecodeError::DifferentProtocol { encoded_on: version, decoding_on: PROTOCOL_VERSION })
            } else if b.len() < 32 {
                Err(DecodeError::InvalidData)
            } else if b.take(32) != sha(b.skip(32)) {
                Err(DecodeError::ChecksumFailed)
            } else {
                match Replica::dec(b.skip(32)) {
                    None => Err(DecodeError::InvalidData),
                    Some((v, _)) => Ok(v),
                }
            }
        },
    }
}
%file encoded_replica.rs
%free checksum
%trusted
    ensures r@ == sha(bytes@),
%impl Deref for Bytes<'_>
%header impl<'a> Bytes<'a>
%fn deref
%sigsub &Self::Target =>> &[u8]
    ensures r@ == self.view(),
%impl EncodedReplica<'buf>
%fn to_replica
%sub &*self.bytes =>> self.bytes.deref()
%sub buf.split_at(CHECKSUM_LEN) =>> vx_split_at(buf, CHECKSUM_LEN)
%sub checksum_slice != checksum(buf) =>> vx_slice_ne(checksum_slice, checksum(buf))
    ensures r == opened(self.bytes.view()),
%impl EncodedReplica<'static>
%fn from_replica
%sub Checksum::default() =>> [0u8; 32]
%sub checksum(&bytes[replica_start..]) =>> checksum(vx_from(&bytes, replica_start))
%sub bytes[$a..$b].copy_from_slice($c); =>> vx_copy(&mut bytes, $a, $b, $c);
%sub bytes.into() =>> vx_boxed(bytes)
    requires replica.enc_ok(),
    ensures exists|body: Seq<u8>| #[trigger] replica.enc(body) && sha(body).len() == 32 && r.bytes.view() == PROTOCOL_VERSION.vi_enc() + (sha(body) + body),
%after let protocol_len
    let ghost p = PROTOCOL_VERSION.vi_enc();
    proof {
        PROTOCOL_VERSION.vi_round_trip(seq![]);
        assert(bytes@ =~= p);
    }
%before Encode::encode
    let ghost b0 = bytes@;
%after Encode::encode
    let ghost body = choose|o: Seq<u8>| replica.enc(o) && bytes@ == b0 + o;
    assert(bytes@.skip(p.len() as int + 32) =~= body);
%after vx_copy
    assert(bytes@ =~= p + (sha(body) + body));
%file replica.rs
%impl Replica
%fn encode
    requires self.enc_ok(),
    ensures exists|body: Seq<u8>| #[trigger] self.enc(body) && sha(body).len() == 32 && r.bytes.view() == PROTOCOL_VERSION.vi_enc() + (sha(body) + body),
%fn decode
    ensures
        id != 0,
        match opened(encoded.bytes.view()) {
            Err(e) => r == Err::<Replica, DecodeError>(e),
            Ok(t) => r is Ok && restored(r->Ok_0, id, t),
        },
%raw
/// The replica made of what was decoded.
pub open spec fn restored(r: Replica, id: u64, t: (RunTree, LamportClock, VersionMap, DeletionMap, Backlog)) -> bool {
    &&& r.id == id
    &&& r.run_tree == t.0
    &&& r.lamport_clock == t.1
    &&& r.run_clock.0 == 0
    &&& r.version_map.this_id == id && r.version_map.this_value == 0
    &&& r.version_map.rest@ == t.2.rest@.insert(t.2.this_id, t.2.this_value)
    &&& r.deletion_map.this_id == id && r.deletion_map.this_value == 0
    &&& r.deletion_map.rest@ == t.3.rest@.insert(t.3.this_id, t.3.this_value)
    &&& r.backlog == t.4
}
pub proof fn opens(v: Replica, body: Seq<u8>)
    requires v.enc(body), v.enc_ok(), sha(body).len() == 32,
    ensures
        opened(PROTOCOL_VERSION.vi_enc() + (sha(body) + body)) is Ok,
        unchanged(v, opened(PROTOCOL_VERSION.vi_enc() + (sha(body) + body))->Ok_0),
{
    let p = PROTOCOL_VERSION.vi_enc();
    let rest = sha(body) + body;
    u64_rt(PROTOCOL_VERSION, p, rest);
    assert(rest.take(32) =~= sha(body));
    assert(rest.skip(32) =~= body);
    replica_rt(v, body, seq![]);
    assert(body + seq![] =~= body);
}
/// C07, C15: encoding a replica and decoding the bytes under a new id gives what
/// forking it gives.
pub fn vx_copy_of(v: &Replica, id: u64) -> (r: Result<Replica, DecodeError>)
    requires
        v.wf(), v.insertions_fit(),
        // ids are unique
        count(v.chars(), id) == 0,
        v.nruns(id) == 0,
        v.deletion_map.at(id) == 0,
        id != v.id,
        !v.version_map.rest@.contains_key(id),
        !v.deletion_map.rest@.contains_key(id),
    ensures
        id != 0,
        r is Ok,
        r->Ok_0.wf(),
        r->Ok_0.id == id,
        r->Ok_0.chars() == v.chars(),
        forall|i: u64| #[trigger] r->Ok_0.nruns(i) == v.nruns(i),
        forall|i: u64| #[trigger] r->Ok_0.version_map.at(i) == v.version_map.at(i),
        forall|i: u64| #[trigger] r->Ok_0.deletion_map.at(i) == v.deletion_map.at(i),
        r->Ok_0.backlog.same(&v.backlog),
        r->Ok_0.lamport_clock == v.lamport_clock,
        r->Ok_0.run_clock.0 == 0,
{
    let e = v.encode();
    let r = Replica::decode(id, &e);
    proof {
        let body = choose|body: Seq<u8>| #[trigger] v.enc(body) && sha(body).len() == 32 && e.bytes.view() == PROTOCOL_VERSION.vi_enc() + (sha(body) + body);
        opens(*v, body);
        let c = r->Ok_0;
        assert forall|i: u64| #[trigger] c.version_map.at(i) == v.version_map.at(i) by {}
        assert forall|i: u64| #[trigger] c.deletion_map.at(i) == v.deletion_map.at(i) by {}
        assert forall|i: u64| #[trigger] c.version_map.at(i) == count(c.chars(), i) by { assert(v.version_map.at(i) == count(v.chars(), i)); }
        assert forall|i: u64| #[trigger] c.nruns(i) == v.nruns(i) by {}
    }
    r
}
/// C09: another version is named; of the bytes of this version, what's accepted
/// carries the checksum of what it's made of.
pub proof fn only_sound(b: Seq<u8>)
    ensures
        opened(b) is Ok ==> {
            &&& u64::dec(b) is Some && u64::dec(b)->Some_0.0 == PROTOCOL_VERSION
            &&& u64::dec(b)->Some_0.1.len() >= 32
            &&& u64::dec(b)->Some_0.1.take(32) == sha(u64::dec(b)->Some_0.1.skip(32))
        },
        u64::dec(b) is Some && u64::dec(b)->Some_0.0 != PROTOCOL_VERSION ==>
            opened(b) == Err::<(RunTree, LamportClock, VersionMap, DeletionMap, Backlog), DecodeError>(DecodeError::DifferentProtocol { encoded_on: u64::dec(b)->Some_0.0, decoding_on: PROTOCOL_VERSION }),
{}
/// C09: with another checksum, or with another body of another checksum, an
/// encoded replica is turned down as corrupt; cut down to less than a checksum, as
/// invalid.
pub proof fn altered(body: Seq<u8>, body2: Seq<u8>, c2: Seq<u8>)
    requires
        sha(body).len() == 32,
        c2 + body2 != sha(body) + body,
        body2 == body || sha(body2) != sha(body),
        c2.len() == 32 || c2.len() + body2.len() < 32,
        c2 == sha(body) || body2 == body || c2.len() + body2.len() < 32,
    ensures
        opened(PROTOCOL_VERSION.vi_enc() + (c2 + body2)) is Err,
        c2.len() == 32 ==> opened(PROTOCOL_VERSION.vi_enc() + (c2 + body2))->Err_0 is ChecksumFailed,
        c2.len() + body2.len() < 32 ==> opened(PROTOCOL_VERSION.vi_enc() + (c2 + body2))->Err_0 is InvalidData,
{
    u64_rt(PROTOCOL_VERSION, PROTOCOL_VERSION.vi_enc(), c2 + body2);
    let rest = c2 + body2;
    if c2.len() == 32 {
        assert(rest.take(32) =~= c2);
        assert(rest.skip(32) =~= body2);
    }
}
