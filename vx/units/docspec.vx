// What merging and making edits does to a document.
%use runspec.vx
%use basemap.vx
%raw
/// How many characters of `id` are in `s`.
#[verifier::opaque]
pub open spec fn count(s: Seq<Ch>, id: u64) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), id) + if s.last().id == id { 1nat } else { 0nat } }
}

/// Where the character is, -1 if it's nowhere.
#[verifier::opaque]
pub open spec fn at(s: Seq<Ch>, id: u64, off: int) -> int
    decreases s.len(),
{
    if s.len() == 0 { -1 }
    else if s.last().id == id && s.last().off == off { s.len() - 1 }
    else { at(s.drop_last(), id, off) }
}

pub open spec fn has_char(s: Seq<Ch>, id: u64, off: int) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id && s[i].off == off
}

/// The place right after the `n`-th visible character (0 for n = 0).
#[verifier::opaque]
pub open spec fn after_vis(s: Seq<Ch>, n: int) -> int
    decreases s.len(),
{
    if n <= 0 || s.len() == 0 { 0 }
    else if vis(s.drop_last()) < n { s.len() as int }
    else { after_vis(s.drop_last(), n) }
}

/// The first place from `p` on where a run of this age fits.
#[verifier::opaque]
pub open spec fn scan(s: Seq<Ch>, p: int, lam: u64, id: u64) -> int
    decreases s.len() - p,
{
    if p < 0 || p >= s.len() { s.len() as int }
    else if beats(s[p].lam, s[p].id, lam, id) { scan(s, p + 1, lam, id) }
    else { p }
}

/// The place right after the character an anchor is next to.
pub open spec fn anchor_place(s: Seq<Ch>, a: InnerAnchor) -> int {
    if a.replica_id == 0 { 0 } else { at(s, a.replica_id, a.offset - 1) + 1 }
}

pub open spec fn ins_block(ins: Insertion) -> Seq<Ch> {
    block(ins.text.inserted_by, ins.text.range.start as int, ins.text.range.end as int, ins.run_ts, ins.lamport_ts, false)
}

pub open spec fn ins_place(s: Seq<Ch>, ins: Insertion) -> int {
    scan(s, anchor_place(s, ins.anchor), ins.lamport_ts, ins.text.inserted_by)
}

/// Merging an insertion.
pub open spec fn merge_ins(s: Seq<Ch>, ins: Insertion) -> Seq<Ch> {
    splice(s, ins_place(s, ins), ins_block(ins))
}

/// The character is among those a deletion by someone who has `vm` deletes.
pub open spec fn known(c: Ch, vm: VersionMap) -> bool { c.off < vm.at(c.id) }

/// Merging a deletion of what's at [from, to).
pub open spec fn mark_known(s: Seq<Ch>, from: int, to: int, vm: VersionMap) -> Seq<Ch> {
    Seq::new(s.len(), |i: int| if from <= i < to && known(s[i], vm) { dead(s[i]) } else { s[i] })
}

pub open spec fn del_from(s: Seq<Ch>, d: Deletion) -> int { at(s, d.start.replica_id, d.start.offset as int) }
pub open spec fn del_to(s: Seq<Ch>, d: Deletion) -> int { at(s, d.end.replica_id, d.end.offset - 1) + 1 }

pub open spec fn merge_del(s: Seq<Ch>, d: Deletion) -> Seq<Ch> {
    mark_known(s, del_from(s, d), del_to(s, d), d.version_map)
}

/// The run a replica's next insertion would start, or the last one goes on.
pub open spec fn ins_ok(s: Seq<Ch>, nruns: int, ins: Insertion) -> bool {
    &&& ins_due(s, nruns, ins)
    &&& s.len() + (ins.text.range.end - ins.text.range.start) <= usize::MAX
}
/// ...however long the document is.
pub open spec fn ins_due(s: Seq<Ch>, nruns: int, ins: Insertion) -> bool {
    let id = ins.text.inserted_by;
    let start = ins.text.range.start;
    let a = ins.anchor;
    &&& id != 0
    &&& start < ins.text.range.end
    &&& start == count(s, id)
    &&& ins.lamport_ts < u64::MAX
    &&& nruns < u64::MAX
    // the character it's next to is there
    &&& a.replica_id != 0 ==> a.offset > 0 && at(s, a.replica_id, a.offset - 1) >= 0
        && s[at(s, a.replica_id, a.offset - 1)].run == a.contained_in
    &&& if a.replica_id == id && a.contained_in == ins.run_ts {
        // it goes on where the replica's last run ends
        &&& a.offset == start
        &&& ins.run_ts == nruns - 1
        &&& s[at(s, id, start - 1)].lam == ins.lamport_ts
    } else {
        &&& ins.run_ts == nruns
        &&& ins.lamport_ts >= 1
        &&& a.replica_id != 0 ==> s[at(s, a.replica_id, a.offset - 1)].lam < ins.lamport_ts
        // nothing of this replica is that young
        &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id ==> s[i].lam < ins.lamport_ts
    }
}

/// A deletion's range is there.
pub open spec fn del_ok(s: Seq<Ch>, d: Deletion) -> bool {
    &&& d.start.replica_id != 0
    &&& d.end.replica_id != 0
    &&& d.end.offset > 0
    &&& 0 <= del_from(s, d) < del_to(s, d)
    &&& s[del_from(s, d)].run == d.start.contained_in
    &&& s[del_to(s, d) - 1].run == d.end.contained_in
    &&& known(s[del_from(s, d)], d.version_map)
    &&& known(s[del_to(s, d) - 1], d.version_map)
}

/// The ranges tell what became of the visible text: `s` before, `t` after.
/// They are in order, don't touch, are not empty, and applied from the first
/// to the last, in the coordinates of the text before, they are exactly the
/// visible characters that `t` hasn't.
pub open spec fn ranges_tell(s: Seq<Ch>, t: Seq<Ch>, ranges: Seq<Range<usize>>) -> bool {
    &&& forall|k: int| 0 <= k < ranges.len() ==> (#[trigger] ranges[k]).start < ranges[k].end
    &&& forall|k: int, l: int| 0 <= k < l < ranges.len() ==> (#[trigger] ranges[k]).end < (#[trigger] ranges[l]).start
    &&& forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).del ==>
        (t[i].del == in_ranges(ranges, vis(s.subrange(0, i)) as int))
    &&& forall|k: int| 0 <= k < ranges.len() ==> (#[trigger] ranges[k]).end <= vis(s)
}

pub open spec fn in_ranges(ranges: Seq<Range<usize>>, o: int) -> bool {
    exists|k: int| 0 <= k < ranges.len() && (#[trigger] ranges[k]).start <= o < ranges[k].end
}

/// Who inserted what is told by id and offset alone: every replica's
/// characters are there from 0 on, each once.
pub open spec fn gap_free(s: Seq<Ch>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).id != 0 && 0 <= s[i].off < count(s, s[i].id)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).id == (#[trigger] s[j]).id && s[i].off == s[j].off)
    &&& forall|id: u64, off: int| 0 <= off < count(s, id) ==> #[trigger] has_char(s, id, off)
}

/// Runs: a replica's runs follow each other, in number, in age and in what's
/// in them; what's in one is in order.
pub open spec fn runs_ok(s: Seq<Ch>, nruns: spec_fn(u64) -> int) -> bool {
    &&& gap_free(s)
    &&& forall|i: int| 0 <= i < s.len() ==> 0 <= (#[trigger] s[i]).run < nruns(s[i].id)
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).id == (#[trigger] s[j]).id ==> {
        &&& s[i].off < s[j].off ==> s[i].run <= s[j].run
        &&& s[i].run == s[j].run <==> s[i].lam == s[j].lam
        &&& s[i].run == s[j].run && i < j ==> s[i].off < s[j].off
    }
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).off == count(s, s[i].id) - 1 ==> s[i].run == nruns(s[i].id) - 1
}

/// Of two neighbours of the same age the one of the smaller id goes first,
/// unless they're of the same run.
pub open spec fn ages_ok(s: Seq<Ch>) -> bool {
    forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] age_pair(s, i)
}
pub open spec fn age_pair(s: Seq<Ch>, i: int) -> bool {
    s[i].lam == s[i + 1].lam ==>
        s[i].id < s[i + 1].id || (s[i].id == s[i + 1].id && s[i].run == s[i + 1].run && s[i].off + 1 == s[i + 1].off)
}

/// Everything is older than `lam`.
pub open spec fn young(s: Seq<Ch>, lam: u64) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).lam < lam
}

/// The same characters, though others may be deleted.
pub open spec fn twins(s: Seq<Ch>, t: Seq<Ch>) -> bool {
    &&& s.len() == t.len()
    &&& forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==>
        s[i].id == t[i].id && s[i].off == t[i].off && s[i].run == t[i].run && s[i].lam == t[i].lam
}
