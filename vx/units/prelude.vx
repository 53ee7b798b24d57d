%raw
use core::ops::Range;
global size_of usize == 8;

/// A panic that no documentation allows: reaching it is a failed obligation.
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{
    unimplemented!()
}

pub broadcast proof fn seq_cat_sub(a: Seq<u8>, b: Seq<u8>)
    ensures
        (#[trigger] (a + b)).subrange(a.len() as int, (a + b).len() as int) == b,
        (a + b).subrange(0, a.len() as int) == a,
        (a + b).len() == a.len() + b.len(),
{
    assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b);
    assert((a + b).subrange(0, a.len() as int) =~= a);
}

pub broadcast proof fn seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert(((a + b) + c) =~= a + (b + c));
}
