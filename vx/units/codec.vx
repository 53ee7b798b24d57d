%use prelude.vx

// ------------------------------------------------ assumed: varint-simd
%raw
pub mod varint_simd {
    use super::*;

    pub enum VarIntDecodeError { Overflow, NotEnoughBytes }

    /// What is assumed of the varint-simd crate.
    pub trait VarIntTarget: Sized + Copy {
        /// The bytes of a value.
        spec fn vi_enc(self) -> Seq<u8>;
        /// The value at the front of a buffer and the bytes it takes.
        spec fn vi_dec(b: Seq<u8>) -> Option<(Self, nat)>;
        spec fn vi_max() -> nat;
        proof fn vi_round_trip(self, rest: Seq<u8>)
            ensures
                Self::vi_dec(self.vi_enc() + rest) == Some((self, self.vi_enc().len())),
                1 <= self.vi_enc().len() <= Self::vi_max();
        proof fn vi_dec_len(b: Seq<u8>)
            ensures
                Self::vi_dec(b) is Some ==> 1 <= Self::vi_dec(b)->Some_0.1 <= b.len(),
                Self::vi_dec(b) is Some ==> Self::vi_dec(b)->Some_0.1 <= Self::vi_max();
    }
    pub uninterp spec fn enc16(v: u16) -> Seq<u8>;
    pub uninterp spec fn dec16(b: Seq<u8>) -> Option<(u16, nat)>;
    pub uninterp spec fn enc32(v: u32) -> Seq<u8>;
    pub uninterp spec fn dec32(b: Seq<u8>) -> Option<(u32, nat)>;
    pub uninterp spec fn enc64(v: u64) -> Seq<u8>;
    pub uninterp spec fn dec64(b: Seq<u8>) -> Option<(u64, nat)>;
    impl VarIntTarget for u16 {
        open spec fn vi_enc(self) -> Seq<u8> { enc16(self) }
        open spec fn vi_dec(b: Seq<u8>) -> Option<(u16, nat)> { dec16(b) }
        open spec fn vi_max() -> nat { 3 }
        #[verifier::external_body]
        proof fn vi_round_trip(self, rest: Seq<u8>) {}
        #[verifier::external_body]
        proof fn vi_dec_len(b: Seq<u8>) {}
    }
    impl VarIntTarget for u32 {
        open spec fn vi_enc(self) -> Seq<u8> { enc32(self) }
        open spec fn vi_dec(b: Seq<u8>) -> Option<(u32, nat)> { dec32(b) }
        open spec fn vi_max() -> nat { 5 }
        #[verifier::external_body]
        proof fn vi_round_trip(self, rest: Seq<u8>) {}
        #[verifier::external_body]
        proof fn vi_dec_len(b: Seq<u8>) {}
    }
    impl VarIntTarget for u64 {
        open spec fn vi_enc(self) -> Seq<u8> { enc64(self) }
        open spec fn vi_dec(b: Seq<u8>) -> Option<(u64, nat)> { dec64(b) }
        open spec fn vi_max() -> nat { 10 }
        #[verifier::external_body]
        proof fn vi_round_trip(self, rest: Seq<u8>) {}
        #[verifier::external_body]
        proof fn vi_dec_len(b: Seq<u8>) {}
    }

    #[verifier::external_body]
    pub fn encode<T: VarIntTarget>(value: T) -> (r: ([u8; 16], u8))
        ensures
            r.1 as nat == value.vi_enc().len(),
            1 <= r.1 <= T::vi_max() <= 16,
            r.0@.subrange(0, r.1 as int) == value.vi_enc(),
    {
        unimplemented!()
    }

    /// The length it returns may exceed the buffer's: the crate checks.
    #[verifier::external_body]
    pub fn decode<T: VarIntTarget>(b: &[u8]) -> (r: Result<(T, usize), VarIntDecodeError>)
        ensures
            match r {
                Ok((v, n)) => {
                    &&& n <= 10
                    &&& n <= b@.len() ==> T::vi_dec(b@) == Some((v, n as nat))
                    &&& n > b@.len() ==> T::vi_dec(b@) is None
                },
                Err(_) => T::vi_dec(b@) is None,
            },
    {
        unimplemented!()
    }
}
pub use varint_simd::VarIntTarget;

/// The value at the front of `b` and what follows it.
pub open spec fn int_dec<T: VarIntTarget>(b: Seq<u8>) -> Option<(T, Seq<u8>)> {
    match T::vi_dec(b) {
        Some((v, n)) => Some((v, b.subrange(n as int, b.len() as int))),
        None => None,
    }
}

pub proof fn int_round_trip<T: VarIntTarget>(v: T, rest: Seq<u8>)
    ensures int_dec::<T>(v.vi_enc() + rest) == Some((v, rest)),
{
    v.vi_round_trip(rest);
    seq_cat_sub(v.vi_enc(), rest);
}

%use types.vx
%file leb128.rs
%alias DecodeError LebDecodeError
%item enum DecodeError
%file encode.rs
%alias DecodeError LebDecodeError
%item type IntDecodeError
%item enum BoolDecodeError
%file insertion.rs
%item enum InsertionRun
%item enum InsertionDecodeError
%file anchor.rs
%item enum AnchorDecodeError

// ------------------------------------------------ leb128.rs
%file leb128.rs
%impl From<varint_simd::VarIntDecodeError> for DecodeError
%fn from
%raw
impl vstd::std_specs::convert::FromSpecImpl<varint_simd::VarIntDecodeError> for LebDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: varint_simd::VarIntDecodeError) -> Self;
}
%free encode_u16
    ensures
        r.1 as nat == value.vi_enc().len(),
        1 <= r.1 <= 3,
        r.0@.subrange(0, r.1 as int) == value.vi_enc(),
%at start
    proof { value.vi_round_trip(seq![]); }
%at end
    assert(vx_tail.0@.subrange(0, vx_tail.1 as int) =~= value.vi_enc());
%free encode_u32
    ensures
        r.1 as nat == value.vi_enc().len(),
        1 <= r.1 <= 5,
        r.0@.subrange(0, r.1 as int) == value.vi_enc(),
%at start
    proof { value.vi_round_trip(seq![]); }
%at end
    assert(vx_tail.0@.subrange(0, vx_tail.1 as int) =~= value.vi_enc());
%free encode_u64
    ensures
        r.1 as nat == value.vi_enc().len(),
        1 <= r.1 <= 10,
        r.0@.subrange(0, r.1 as int) == value.vi_enc(),
%at start
    proof { value.vi_round_trip(seq![]); }
%at end
    assert(vx_tail.0@.subrange(0, vx_tail.1 as int) =~= value.vi_enc());
%free decode_u16
    ensures
        match r {
            Ok((v, n)) => u16::vi_dec(buf@) == Some((v, n as nat)) && n <= buf@.len(),
            Err(_) => u16::vi_dec(buf@) is None,
        },
%free decode_u32
    ensures
        match r {
            Ok((v, n)) => u32::vi_dec(buf@) == Some((v, n as nat)) && n <= buf@.len(),
            Err(_) => u32::vi_dec(buf@) is None,
        },
%free decode_u64
    ensures
        match r {
            Ok((v, n)) => u64::vi_dec(buf@) == Some((v, n as nat)) && n <= buf@.len(),
            Err(_) => u64::vi_dec(buf@) is None,
        },

// ------------------------------------------------ encode.rs
%file encode.rs
%trait Encode
%ghost
    /// `out` is an encoding of this value.
    spec fn enc(&self, out: Seq<u8>) -> bool;
    /// The values that can be encoded.
    spec fn enc_ok(&self) -> bool;
%fn encode
    requires self.enc_ok(),
    ensures exists|o: Seq<u8>| #[trigger] self.enc(o) && final(buf)@ == old(buf)@ + o,
%trait Decode
%ghost
    /// The value at the front of `b`, if it is valid, and what follows it.
    spec fn dec(b: Seq<u8>) -> Option<(Self::Value, Seq<u8>)>;
%fn decode
    ensures
        match r {
            Ok((v, rest)) => Self::dec(buf@) == Some((v, rest@)),
            Err(_) => Self::dec(buf@) is None,
        },
%impl Encode for bool
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == seq![if *self { 1u8 } else { 0u8 }] }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        let o = seq![if *self { 1u8 } else { 0u8 }];
        assert(self.enc(o));
        assert(buf@ =~= old(buf)@ + o);
    }
%impl Decode for bool
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(bool, Seq<u8>)> {
        if b.len() > 0 && b[0] <= 1 {
            Some((b[0] == 1, b.subrange(1, b.len() as int)))
        } else {
            None
        }
    }
%fn decode
%impl Encode for u16
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.vi_enc() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    assert(buf@ =~= old(buf)@ + self.vi_enc());
    assert(self.enc(self.vi_enc()));
%impl Encode for u32
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.vi_enc() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    assert(buf@ =~= old(buf)@ + self.vi_enc());
    assert(self.enc(self.vi_enc()));
%impl Encode for u64
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.vi_enc() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    assert(buf@ =~= old(buf)@ + self.vi_enc());
    assert(self.enc(self.vi_enc()));
%impl Encode for usize
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == (*self as u64).vi_enc() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        let o = (*self as u64).vi_enc();
        assert((*self as u64).enc(o));
        assert(self.enc(o));
    }
%impl Decode for u16
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(u16, Seq<u8>)> { int_dec(b) }
%fn decode
%impl Decode for u32
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(u32, Seq<u8>)> { int_dec(b) }
%fn decode
%impl Decode for u64
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(u64, Seq<u8>)> { int_dec(b) }
%fn decode
%impl Decode for usize
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(usize, Seq<u8>)> {
        match int_dec::<u64>(b) {
            Some((v, rest)) => Some((v as usize, rest)),
            None => None,
        }
    }
%fn decode
%raw
/// Decoding an encoded value, whatever follows it, gives the value.
pub proof fn bool_rt(v: bool, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out),
    ensures bool::dec(out + rest) == Some((v, rest)),
{
    assert((out + rest).subrange(1, (out + rest).len() as int) =~= rest);
}

pub proof fn u64_rt(v: u64, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out),
    ensures u64::dec(out + rest) == Some((v, rest)),
{
    int_round_trip(v, rest);
}

pub proof fn u32_rt(v: u32, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out),
    ensures u32::dec(out + rest) == Some((v, rest)),
{
    int_round_trip(v, rest);
}

pub proof fn usize_rt(v: usize, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out),
    ensures usize::dec(out + rest) == Some((v, rest)),
{
    int_round_trip(v as u64, rest);
}

// ------------------------------------------------ text.rs, anchor.rs
%file text.rs
%impl Encode for Text
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.bytes() }
    open spec fn enc_ok(&self) -> bool { self.range.start <= self.range.end }
%fn encode
%at end
    proof {
        assert(self.enc(self.bytes()));
        assert(buf@ =~= old(buf)@ + self.bytes());
    }
%impl Decode for Text
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(Text, Seq<u8>)> {
        match u64::dec(b) {
            None => None,
            Some((id, b)) => match usize::dec(b) {
                None => None,
                Some((start, b)) => match usize::dec(b) {
                    None => None,
                    Some((len, b)) => if start + len > usize::MAX {
                        None
                    } else {
                        Some((Text { inserted_by: id, range: Range { start, end: (start + len) as usize } }, b))
                    },
                },
            },
        }
    }
%fn decode
%raw
impl Text {
    pub open spec fn bytes(self) -> Seq<u8> {
        self.inserted_by.vi_enc() + (self.range.start as u64).vi_enc()
            + ((self.range.end - self.range.start) as u64).vi_enc()
    }
}

pub proof fn text_rt(v: Text, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.enc_ok(),
    ensures Text::dec(out + rest) == Some((v, rest)),
{
    broadcast use seq_assoc;
    let (a, b, c) = (v.inserted_by.vi_enc(), (v.range.start as u64).vi_enc(),
        ((v.range.end - v.range.start) as u64).vi_enc());
    assert(out + rest == a + (b + (c + rest)));
    u64_rt(v.inserted_by, a, b + (c + rest));
    usize_rt(v.range.start, b, c + rest);
    usize_rt((v.range.end - v.range.start) as usize, c, rest);
}

%raw
impl InnerAnchor {
    pub open spec fn bytes(self) -> Seq<u8> {
        self.replica_id.vi_enc() + self.contained_in.vi_enc() + (self.offset as u64).vi_enc()
    }
}
%file anchor.rs
%impl Encode for InnerAnchor
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.bytes() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        assert(self.enc(self.bytes()));
        assert(buf@ =~= old(buf)@ + self.bytes());
    }
%impl Decode for InnerAnchor
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(InnerAnchor, Seq<u8>)> {
        match u64::dec(b) {
            None => None,
            Some((replica_id, b)) => match u64::dec(b) {
                None => None,
                Some((contained_in, b)) => match usize::dec(b) {
                    None => None,
                    Some((offset, b)) => Some((InnerAnchor { replica_id, contained_in, offset }, b)),
                },
            },
        }
    }
%fn decode
%raw
pub proof fn inner_rt(v: InnerAnchor, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out),
    ensures InnerAnchor::dec(out + rest) == Some((v, rest)),
{
    broadcast use seq_assoc;
    let (a, b, c) = (v.replica_id.vi_enc(), v.contained_in.vi_enc(), (v.offset as u64).vi_enc());
    assert(out + rest == a + (b + (c + rest)));
    u64_rt(v.replica_id, a, b + (c + rest));
    u64_rt(v.contained_in, b, c + rest);
    usize_rt(v.offset, c, rest);
}

%impl Encode for AnchorBias
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { (*self is Right).enc(out) }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        let o = seq![if *self is Right { 1u8 } else { 0u8 }];
        assert((*self is Right).enc(o));
        assert(self.enc(o));
        assert(buf@ =~= old(buf)@ + o);
    }
%impl Decode for AnchorBias
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(AnchorBias, Seq<u8>)> {
        match bool::dec(b) {
            None => None,
            Some((x, b)) => Some((if x { AnchorBias::Right } else { AnchorBias::Left }, b)),
        }
    }
%fn decode
%raw
impl Anchor {
    pub open spec fn bytes(self) -> Seq<u8> {
        self.inner.bytes() + seq![if self.bias is Right { 1u8 } else { 0u8 }]
    }
}
%file anchor.rs
%impl Encode for Anchor
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.bytes() }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        assert(self.enc(self.bytes()));
        assert(buf@ =~= old(buf)@ + self.bytes());
    }
%impl From<BoolDecodeError> for AnchorDecodeError
%fn from
%impl From<IntDecodeError> for AnchorDecodeError
%fn from
%raw
impl vstd::std_specs::convert::FromSpecImpl<BoolDecodeError> for AnchorDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BoolDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for AnchorDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
%impl Decode for Anchor
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(Anchor, Seq<u8>)> {
        match InnerAnchor::dec(b) {
            None => None,
            Some((inner, b)) => match AnchorBias::dec(b) {
                None => None,
                Some((bias, b)) => Some((Anchor { inner, bias }, b)),
            },
        }
    }
%fn decode
%raw
pub proof fn anchor_rt(v: Anchor, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out),
    ensures Anchor::dec(out + rest) == Some((v, rest)),
{
    broadcast use seq_assoc;
    let a = v.inner.bytes();
    let b = seq![if v.bias is Right { 1u8 } else { 0u8 }];
    inner_rt(v.inner, a, b + rest);
    bool_rt(v.bias is Right, b, rest);
}

// ------------------------------------------------ insertion.rs
%raw
impl Insertion {
    pub open spec fn bytes(self) -> Seq<u8> {
        self.text.bytes() + self.run_ts.vi_enc() + self.lamport_ts.vi_enc()
            + seq![if self.continues() { 1u8 } else { 0u8 }]
            + (if self.continues() { seq![] } else { self.anchor.bytes() })
    }
}
%file insertion.rs
%impl Insertion
%fn encode_anchor
    requires run is ContinuesExisting == self.continues(),
    ensures final(buf)@ == old(buf)@ + (if self.continues() { seq![] } else { self.anchor.bytes() }),
%at end
    assert(buf@ =~= old(buf)@ + (if self.continues() { seq![] } else { self.anchor.bytes() }));
%fn decode_anchor
    ensures
        match (run, r) {
            (InsertionRun::BeginsNew, Ok((v, rest))) => InnerAnchor::dec(buf@) == Some((v, rest@)),
            (InsertionRun::BeginsNew, Err(_)) => InnerAnchor::dec(buf@) is None,
            (InsertionRun::ContinuesExisting, Ok((v, rest))) => {
                &&& rest@ == buf@
                &&& v.replica_id == text.inserted_by
                &&& v.offset == text.range.start
                &&& v.contained_in == run_ts
            },
            (InsertionRun::ContinuesExisting, Err(_)) => false,
        },
%impl InsertionRun
%fn new
    ensures r is ContinuesExisting == insertion.continues(),
%impl Encode for InsertionRun
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { (*self is ContinuesExisting).enc(out) }
    open spec fn enc_ok(&self) -> bool { true }
%fn encode
%at end
    proof {
        let o = seq![if *self is ContinuesExisting { 1u8 } else { 0u8 }];
        assert((*self is ContinuesExisting).enc(o));
        assert(self.enc(o));
        assert(buf@ =~= old(buf)@ + o);
    }
%impl Decode for InsertionRun
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(InsertionRun, Seq<u8>)> {
        match bool::dec(b) {
            None => None,
            Some((x, b)) => Some((
                if x { InsertionRun::ContinuesExisting } else { InsertionRun::BeginsNew },
                b,
            )),
        }
    }
%fn decode
%impl Encode for Insertion
%ghost
    open spec fn enc(&self, out: Seq<u8>) -> bool { out == self.bytes() }
    open spec fn enc_ok(&self) -> bool { self.wf() }
%fn encode
%at end
    proof {
        assert(self.enc(self.bytes()));
        assert(buf@ =~= old(buf)@ + self.bytes());
    }
%impl From<IntDecodeError> for InsertionDecodeError
%fn from
%impl From<BoolDecodeError> for InsertionDecodeError
%fn from
%raw
impl vstd::std_specs::convert::FromSpecImpl<BoolDecodeError> for InsertionDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: BoolDecodeError) -> Self;
}
impl vstd::std_specs::convert::FromSpecImpl<IntDecodeError> for InsertionDecodeError {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: IntDecodeError) -> Self;
}
%impl Decode for Insertion
%ghost
    open spec fn dec(b: Seq<u8>) -> Option<(Insertion, Seq<u8>)> {
        match Text::dec(b) {
            None => None,
            Some((text, b)) => match u64::dec(b) {
                None => None,
                Some((run_ts, b)) => match u64::dec(b) {
                    None => None,
                    Some((lamport_ts, b)) => match InsertionRun::dec(b) {
                        None => None,
                        Some((InsertionRun::BeginsNew, b)) => match InnerAnchor::dec(b) {
                            None => None,
                            Some((anchor, b)) => Some((Insertion { anchor, text, run_ts, lamport_ts }, b)),
                        },
                        Some((InsertionRun::ContinuesExisting, b)) => {
                            let anchor = InnerAnchor {
                                replica_id: text.inserted_by,
                                offset: text.range.start,
                                contained_in: run_ts,
                            };
                            Some((Insertion { anchor, text, run_ts, lamport_ts }, b))
                        },
                    },
                },
            },
        }
    }
%fn decode
%raw
/// C08 for insertions.
pub proof fn insertion_rt(v: Insertion, out: Seq<u8>, rest: Seq<u8>)
    requires v.enc(out), v.enc_ok(),
    ensures Insertion::dec(out + rest) == Some((v, rest)),
{
    broadcast use seq_assoc;
    let (a, b, c) = (v.text.bytes(), v.run_ts.vi_enc(), v.lamport_ts.vi_enc());
    let d = seq![if v.continues() { 1u8 } else { 0u8 }];
    let e = if v.continues() { seq![] } else { v.anchor.bytes() };
    let r4 = e + rest;
    let r3 = d + r4;
    let r2 = c + r3;
    let r1 = b + r2;
    assert(out + rest == a + r1);
    text_rt(v.text, a, r1);
    u64_rt(v.run_ts, b, r2);
    u64_rt(v.lamport_ts, c, r3);
    bool_rt(v.continues(), d, r4);
    if !v.continues() {
        inner_rt(v.anchor, e, rest);
    } else {
        assert(r4 =~= rest);
    }
}
