// The document as the runs that are the leaves of its tree.
%import runidx.vx
%use docspec.vx
%raw
impl VxLen for EditRun {
    open spec fn vlen(&self) -> int { if self.is_deleted && self.n() >= 0 { 0 } else { self.n() } }
}
pub type Ls = Seq<Lf<EditRun>>;

/// The characters of the leaves.
#[verifier::opaque]
pub open spec fn cat(ls: Ls) -> Seq<Ch>
    decreases ls.len(),
{
    if ls.len() == 0 { Seq::empty() } else { cat(ls.drop_last()) + ls.last().v.chars() }
}
/// Where the k-th leaf starts.
pub open spec fn pos(ls: Ls, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { pos(ls, k - 1) + ls[k - 1].v.n() }
}
pub open spec fn leaves_ok(ls: Ls) -> bool {
    forall|k: int| 0 <= k < ls.len() ==> (#[trigger] ls[k]).v.wf() && ls[k].v.text.inserted_by != 0
}
/// Only a document that was empty at first has an empty run, its last one.
pub open spec fn empty_ok(ls: Ls) -> bool {
    forall|k: int| 0 <= k < ls.len() && (#[trigger] ls[k]).v.n() == 0 ==> {
        &&& k == ls.len() - 1
        &&& ls[k].v.lamport_ts == 0
        &&& !ls[k].v.is_deleted
        &&& forall|j: int| 0 <= j < k ==> (#[trigger] ls[j]).v.lamport_ts > 0
    }
}
/// Where a run split in two: the first.
pub open spec fn part_of(v: EditRun, from: int, to: int) -> EditRun {
    EditRun { text: Text { inserted_by: v.text.inserted_by,
        range: Range { start: (v.text.range.start + from) as usize, end: (v.text.range.start + to) as usize } }, ..v }
}

/// The part of its run that a leaf is.
pub open spec fn fr_of(l: Lf<EditRun>) -> Fr {
    Fr { run: l.v.run_ts as int, start: l.v.text.range.start as int, len: l.v.n(), idx: l.idx }
}
pub open spec fn lf_at(ls: Ls, id: u64, w: Fr, k: int) -> bool {
    0 <= k < ls.len() && ls[k].v.text.inserted_by == id && fr_of(ls[k]) == w
}
pub open spec fn lf_has(ls: Ls, id: u64, w: Fr) -> bool { exists|k: int| #[trigger] lf_at(ls, id, w, k) }

/// The tables tell which leaf each part of each run is in.
pub open spec fn tables_ok(ls: Ls, ri: RunIndices) -> bool {
    &&& ri.wf()
    &&& forall|id: u64, w: Fr| #![trigger has_part(ri.of(id), w)] #![trigger lf_has(ls, id, w)] has_part(ri.of(id), w) <==> lf_has(ls, id, w)
    &&& forall|id: u64| sum(#[trigger] ri.of(id)) == count(cat(ls), id)
}
/// Leaves that are deleted.
pub open spec fn gone(l: Lf<EditRun>) -> Lf<EditRun> { lf(l.idx, EditRun { is_deleted: true, ..l.v }) }
pub open spec fn gone_all(ls: Ls, i: int, j: int) -> Ls {
    Seq::new(ls.len(), |x: int| if i <= x < j { gone(ls[x]) } else { ls[x] })
}
