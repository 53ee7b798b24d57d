// The document as a sequence of characters, visible and deleted ones.
%use types.vx
%raw
/// A character: its identity (who inserted it, its position among everything
/// they inserted), the run it's in, the age of that run, and if it's deleted.
pub ghost struct Ch { pub id: u64, pub off: int, pub run: u64, pub lam: u64, pub del: bool }

pub open spec fn block(id: u64, start: int, end: int, run: u64, lam: u64, del: bool) -> Seq<Ch> {
    Seq::new((if end > start { end - start } else { 0 }) as nat, |i: int| Ch { id, off: start + i, run, lam, del })
}

/// The number of visible characters.
#[verifier::opaque]
pub open spec fn vis(s: Seq<Ch>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { vis(s.drop_last()) + if s.last().del { 0nat } else { 1nat } }
}

pub open spec fn dead(c: Ch) -> Ch { Ch { del: true, ..c } }

/// `s` with the characters at [from, to) deleted.
pub open spec fn mark(s: Seq<Ch>, from: int, to: int) -> Seq<Ch> {
    Seq::new(s.len(), |i: int| if from <= i < to { dead(s[i]) } else { s[i] })
}

pub open spec fn splice(s: Seq<Ch>, p: int, b: Seq<Ch>) -> Seq<Ch> {
    s.subrange(0, p) + b + s.subrange(p, s.len() as int)
}

/// A run that's older than `lam` makes place for it; of two of the same age the
/// one of the replica with the smaller id goes first.
pub open spec fn beats(c_lam: u64, c_id: u64, lam: u64, id: u64) -> bool {
    c_lam > lam || (c_lam == lam && c_id < id)
}
