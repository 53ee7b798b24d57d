// run_indices.rs: the parts of one run. These contracts are what the other units
// assume of Fragments; fragproof.vx proves them of it.
%use frags.vx
%raw
#[verifier::external_body]
pub struct Fragments { _p: usize }
impl Fragments {
    pub uninterp spec fn view(&self) -> Seq<Fragment>;
    pub uninterp spec fn wf(&self) -> bool;
    /// It has no parts yet.
    pub uninterp spec fn blank(&self) -> bool;
    #[verifier::external_body]
    pub proof fn facts(&self)
        requires self.wf(),
        ensures frs_ok(self@),
    {}
}
%file run_indices.rs
%impl Fragments<INLINE>
%header impl Fragments
%fn append
%trusted
    requires
        old(self).blank() || old(self).wf() && fragment.len > 0 && total(old(self)@) > 0 && total(old(self)@) + fragment.len <= usize::MAX,
        fragment.idx != LeafIdx::<EditRun>::nowhere(),
    ensures final(self).wf(), final(self)@ == old(self)@.push(fragment),
%fn extend
%trusted
    requires old(self).wf(), total(old(self)@) + extend_by <= usize::MAX,
    ensures
        final(self).wf(),
        final(self)@ == old(self)@.update(old(self)@.len() - 1,
            Fragment { len: (old(self)@.last().len + extend_by) as usize, idx: old(self)@.last().idx }),
%fn fragment_at_offset
%trusted
    requires
        self.wf(),
        at_offset < total(self@) || (at_offset == total(self@) && bias == AnchorBias::Left),
    ensures
        exists|j: int| 0 <= j < self@.len() && #[trigger] self@[j] == *r && (
            if bias == AnchorBias::Left { fr_at(self@, at_offset as int, j) }
            else { cum(self@, j) <= at_offset < cum(self@, j + 1) }),
%fn from_first_fragment
%trusted
    requires fragment.idx != LeafIdx::<EditRun>::nowhere(),
    ensures r.wf(), r@ == seq![fragment],
%fn len
%trusted
    requires self.wf(),
    ensures r == total(self@),
%fn move_len_to_next_fragment
%trusted
    requires
        old(self).wf(),
        exists|j: int| fr_in(old(self)@, fragment_at_offset as int, j) && j + 1 < old(self)@.len() && 0 < len_move < #[trigger] old(self)@[j].len,
    ensures
        final(self).wf(),
        forall|j: int| fr_in(old(self)@, fragment_at_offset as int, j) ==> final(self)@ == #[trigger] moved(old(self)@, j, j + 1, len_move as int),
%fn move_len_to_prev_split
%trusted
    requires
        old(self).wf(),
        exists|j: int| fr_in(old(self)@, at_offset as int, j) && 0 < j && 0 < len_move < #[trigger] old(self)@[j].len,
    ensures
        final(self).wf(),
        forall|j: int| fr_in(old(self)@, at_offset as int, j) ==> final(self)@ == #[trigger] moved(old(self)@, j, j - 1, len_move as int),
%fn split
%trusted
    requires
        old(self).wf(),
        exists|j: int| #[trigger] fr_in(old(self)@, at_offset as int, j),
        new_idx != LeafIdx::<EditRun>::nowhere(),
    ensures
        final(self).wf(),
        forall|j: int| #[trigger] fr_in(old(self)@, at_offset as int, j) ==> final(self)@ == split_at(old(self)@, j, at_offset as int, new_idx),
