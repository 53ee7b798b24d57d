// Facts about documents.
%use docspec.vx
%raw
// -- vis
pub proof fn vis_add(a: Seq<Ch>, b: Seq<Ch>)
    ensures vis(a + b) == vis(a) + vis(b),
    decreases b.len(),
{
    reveal(vis);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        vis_add(a, b.drop_last());
    }
}
pub proof fn vis_le(s: Seq<Ch>)
    ensures vis(s) <= s.len(),
    decreases s.len(),
{
    reveal(vis);
    if s.len() > 0 { vis_le(s.drop_last()); }
}
pub proof fn vis_cut(s: Seq<Ch>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures
        vis(s.subrange(0, j)) == vis(s.subrange(0, i)) + vis(s.subrange(i, j)),
        vis(s.subrange(0, i)) <= vis(s.subrange(0, j)),
{
    assert(s.subrange(0, j) =~= s.subrange(0, i) + s.subrange(i, j));
    vis_add(s.subrange(0, i), s.subrange(i, j));
}
pub proof fn vis_step(s: Seq<Ch>, i: int)
    requires 0 <= i < s.len(),
    ensures vis(s.subrange(0, i + 1)) == vis(s.subrange(0, i)) + if s[i].del { 0nat } else { 1nat },
{
    reveal(vis);
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
}
pub proof fn vis_block(id: u64, a: int, b: int, run: u64, lam: u64, del: bool)
    requires a <= b,
    ensures vis(block(id, a, b, run, lam, del)) == if del { 0 } else { b - a },
    decreases b - a,
{
    reveal(vis);
    if a < b {
        assert(block(id, a, b, run, lam, del).drop_last() =~= block(id, a, b - 1, run, lam, del));
        vis_block(id, a, b - 1, run, lam, del);
    }
}
/// The place after the n-th visible character.
pub proof fn after_vis_is(s: Seq<Ch>, n: int)
    requires 0 <= n <= vis(s),
    ensures
        0 <= after_vis(s, n) <= s.len(),
        vis(s.subrange(0, after_vis(s, n))) == n,
        n == 0 ==> after_vis(s, n) == 0,
        n > 0 ==> after_vis(s, n) > 0 && !s[after_vis(s, n) - 1].del
            && vis(s.subrange(0, after_vis(s, n) - 1)) == n - 1,
    decreases s.len(),
{
    reveal(vis);
    reveal(after_vis);
    if n == 0 {
        assert(s.subrange(0, 0) =~= Seq::<Ch>::empty());
    } else if s.len() > 0 {
        let t = s.drop_last();
        if vis(t) < n {
            assert(s.subrange(0, s.len() as int) =~= s);
            assert(s.subrange(0, s.len() - 1) =~= t);
        } else {
            after_vis_is(t, n);
            let p = after_vis(t, n);
            assert(t.subrange(0, p) =~= s.subrange(0, p));
            assert(t.subrange(0, p - 1) =~= s.subrange(0, p - 1));
        }
    }
}
/// What makes a place the one after the n-th visible character.
pub proof fn after_vis_only(s: Seq<Ch>, n: int, p: int)
    requires 0 < p <= s.len(), !s[p - 1].del, vis(s.subrange(0, p)) == n,
    ensures after_vis(s, n) == p, 0 < n <= vis(s),
{
    vis_cut(s, p, s.len() as int);
    assert(s.subrange(0, s.len() as int) =~= s);
    vis_step(s, p - 1);
    after_vis_is(s, n);
    let q = after_vis(s, n);
    if q < p {
        vis_cut(s, q, p - 1);
    } else if q > p {
        vis_cut(s, p, q - 1);
    }
}
pub proof fn after_vis_order(s: Seq<Ch>, m: int, n: int)
    requires 0 <= m < n <= vis(s),
    ensures after_vis(s, m) < after_vis(s, n),
{
    after_vis_is(s, m);
    after_vis_is(s, n);
    if after_vis(s, n) <= after_vis(s, m) {
        vis_cut(s, after_vis(s, n), after_vis(s, m));
    }
}

// -- count
pub proof fn count_add(a: Seq<Ch>, b: Seq<Ch>, id: u64)
    ensures count(a + b, id) == count(a, id) + count(b, id),
    decreases b.len(),
{
    reveal(count);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        count_add(a, b.drop_last(), id);
    }
}
pub proof fn count_le(s: Seq<Ch>, id: u64)
    ensures count(s, id) <= s.len(),
    decreases s.len(),
{
    reveal(count);
    if s.len() > 0 { count_le(s.drop_last(), id); }
}
pub proof fn count_block(who: u64, a: int, b: int, run: u64, lam: u64, del: bool, id: u64)
    requires a <= b,
    ensures count(block(who, a, b, run, lam, del), id) == if who == id { b - a } else { 0 },
    decreases b - a,
{
    reveal(count);
    if a < b {
        assert(block(who, a, b, run, lam, del).drop_last() =~= block(who, a, b - 1, run, lam, del));
        count_block(who, a, b - 1, run, lam, del, id);
    }
}
pub proof fn count_splice(s: Seq<Ch>, p: int, b: Seq<Ch>, id: u64)
    requires 0 <= p <= s.len(),
    ensures count(splice(s, p, b), id) == count(s, id) + count(b, id),
{
    let l = s.subrange(0, p);
    let r = s.subrange(p, s.len() as int);
    count_add(l + b, r, id);
    count_add(l, b, id);
    count_add(l, r, id);
    assert(l + r =~= s);
}
pub proof fn count_twins(s: Seq<Ch>, t: Seq<Ch>, id: u64)
    requires twins(s, t),
    ensures count(s, id) == count(t, id),
    decreases s.len(),
{
    reveal(count);
    if s.len() > 0 {
        assert(twins(s.drop_last(), t.drop_last()));
        count_twins(s.drop_last(), t.drop_last(), id);
    }
}
/// A replica that has a character has some.
pub proof fn count_has(s: Seq<Ch>, id: u64, i: int)
    requires 0 <= i < s.len(), s[i].id == id,
    ensures count(s, id) > 0,
    decreases s.len(),
{
    reveal(count);
    if i < s.len() - 1 { count_has(s.drop_last(), id, i); }
}

// -- at
pub proof fn at_is(s: Seq<Ch>, id: u64, off: int)
    ensures
        -1 <= at(s, id, off) < s.len(),
        at(s, id, off) >= 0 ==> s[at(s, id, off)].id == id && s[at(s, id, off)].off == off,
        has_char(s, id, off) ==> at(s, id, off) >= 0,
    decreases s.len(),
{
    reveal(at);
    if s.len() > 0 {
        at_is(s.drop_last(), id, off);
        if has_char(s, id, off) && !(s.last().id == id && s.last().off == off) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id && s[i].off == off;
            assert(s.drop_last()[i] == s[i]);
        }
    }
}
pub proof fn at_only(s: Seq<Ch>, i: int)
    requires gap_free(s), 0 <= i < s.len(),
    ensures at(s, s[i].id, s[i].off) == i, s[i].off < count(s, s[i].id), s[i].id != 0,
{
    assert(has_char(s, s[i].id, s[i].off));
    at_is(s, s[i].id, s[i].off);
}
pub proof fn at_some(s: Seq<Ch>, id: u64, off: int)
    requires gap_free(s), 0 <= off < count(s, id),
    ensures
        0 <= at(s, id, off) < s.len(),
        s[at(s, id, off)].id == id && s[at(s, id, off)].off == off,
{
    assert(has_char(s, id, off));
    at_is(s, id, off);
}

// -- scan
pub proof fn scan_is(s: Seq<Ch>, p: int, lam: u64, id: u64)
    requires 0 <= p <= s.len(),
    ensures
        p <= scan(s, p, lam, id) <= s.len(),
        forall|i: int| p <= i < scan(s, p, lam, id) ==> beats((#[trigger] s[i]).lam, s[i].id, lam, id),
        scan(s, p, lam, id) < s.len() ==> !beats(s[scan(s, p, lam, id)].lam, s[scan(s, p, lam, id)].id, lam, id),
    decreases s.len() - p,
{
    reveal(scan);
    if p < s.len() && beats(s[p].lam, s[p].id, lam, id) { scan_is(s, p + 1, lam, id); }
}
pub proof fn scan_only(s: Seq<Ch>, p: int, lam: u64, id: u64, q: int)
    requires
        0 <= p <= q <= s.len(),
        forall|i: int| p <= i < q ==> beats((#[trigger] s[i]).lam, s[i].id, lam, id),
        q < s.len() ==> !beats(s[q].lam, s[q].id, lam, id),
    ensures scan(s, p, lam, id) == q,
    decreases q - p,
{
    reveal(scan);
    if p < q {
        assert(beats(s[p].lam, s[p].id, lam, id));
        scan_only(s, p + 1, lam, id, q);
    }
}

// -- what's kept when characters are deleted
pub proof fn twins_keep(s: Seq<Ch>, t: Seq<Ch>, nr: spec_fn(u64) -> int, lam: u64)
    requires twins(s, t),
    ensures
        forall|id: u64| #[trigger] count(t, id) == count(s, id),
        gap_free(s) ==> gap_free(t),
        runs_ok(s, nr) ==> runs_ok(t, nr),
        ages_ok(s) ==> ages_ok(t),
        young(s, lam) ==> young(t, lam),
{
    assert forall|id: u64| #[trigger] count(t, id) == count(s, id) by { count_twins(s, t, id); }
    if gap_free(s) {
        assert forall|id: u64, off: int| 0 <= off < count(t, id) implies #[trigger] has_char(t, id, off) by {
            assert(has_char(s, id, off));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id && s[i].off == off;
            assert(t[i].id == id);
        }
    }
    if ages_ok(s) {
        assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] age_pair(t, i) by {
            assert(age_pair(s, i));
            assert(s[i].lam == t[i].lam);
            assert(s[i + 1].lam == t[i + 1].lam);
        }
    }
}

// -- what's kept when an insertion is merged
pub proof fn splice_at(s: Seq<Ch>, p: int, b: Seq<Ch>, i: int)
    requires 0 <= p <= s.len(), 0 <= i < s.len() + b.len(),
    ensures
        splice(s, p, b).len() == s.len() + b.len(),
        splice(s, p, b)[i] == (if i < p { s[i] } else if i < p + b.len() { b[i - p] } else { s[i - b.len()] }),
{}
/// Where it goes.
pub proof fn place_is(s: Seq<Ch>, nruns: int, ins: Insertion)
    requires ins_due(s, nruns, ins),
    ensures
        0 <= anchor_place(s, ins.anchor) <= ins_place(s, ins) <= s.len(),
        ins.anchor.replica_id != 0 ==> anchor_place(s, ins.anchor) > 0,
{
    at_is(s, ins.anchor.replica_id, ins.anchor.offset - 1);
    scan_is(s, anchor_place(s, ins.anchor), ins.lamport_ts, ins.text.inserted_by);
}
pub proof fn merge_counts(s: Seq<Ch>, nruns: int, ins: Insertion)
    requires ins_due(s, nruns, ins),
    ensures
        forall|id: u64| #[trigger] count(merge_ins(s, ins), id)
            == (if id == ins.text.inserted_by { ins.text.range.end as int } else { count(s, id) as int }),
        merge_ins(s, ins).len() == s.len() + (ins.text.range.end - ins.text.range.start),
        vis(merge_ins(s, ins)) == vis(s) + (ins.text.range.end - ins.text.range.start),
{
    place_is(s, nruns, ins);
    let p = ins_place(s, ins);
    let a = ins.text.range.start as int;
    let b = ins.text.range.end as int;
    assert forall|id: u64| #[trigger] count(merge_ins(s, ins), id)
        == (if id == ins.text.inserted_by { b } else { count(s, id) as int }) by {
        count_splice(s, p, ins_block(ins), id);
        count_block(ins.text.inserted_by, a, b, ins.run_ts, ins.lamport_ts, false, id);
    }
    let l = s.subrange(0, p);
    let r = s.subrange(p, s.len() as int);
    vis_add(l + ins_block(ins), r);
    vis_add(l, ins_block(ins));
    vis_add(l, r);
    assert(l + r =~= s);
    vis_block(ins.text.inserted_by, a, b, ins.run_ts, ins.lamport_ts, false);
}
pub proof fn merge_gap_free(s: Seq<Ch>, nruns: int, ins: Insertion)
    requires ins_due(s, nruns, ins), gap_free(s),
    ensures gap_free(merge_ins(s, ins)),
{
    place_is(s, nruns, ins);
    merge_counts(s, nruns, ins);
    let t = merge_ins(s, ins);
    let p = ins_place(s, ins);
    let b = ins_block(ins);
    let n = b.len() as int;
    let id = ins.text.inserted_by;
    let start = ins.text.range.start as int;
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).id != 0 && 0 <= t[i].off < count(t, t[i].id) by {
        splice_at(s, p, b, i);
        let k = if i < p { i } else { i - n };
        if i < p || i >= p + n { assert(t[i] == s[k]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies
        !((#[trigger] t[i]).id == (#[trigger] t[j]).id && t[i].off == t[j].off) by {
        splice_at(s, p, b, i);
        splice_at(s, p, b, j);
        let k = if i < p { i } else { i - n };
        let l = if j < p { j } else { j - n };
        if i < p || i >= p + n { assert(t[i] == s[k]); }
        if j < p || j >= p + n { assert(t[j] == s[l]); }
    }
    assert forall|w: u64, off: int| 0 <= off < count(t, w) implies #[trigger] has_char(t, w, off) by {
        if w == id && off >= start {
            splice_at(s, p, b, p + off - start);
            assert(t[p + off - start].off == off);
        } else {
            assert(has_char(s, w, off));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == w && s[i].off == off;
            let k = if i < p { i } else { i + n };
            splice_at(s, p, b, k);
            assert(t[k] == s[i]);
        }
    }
}
pub open spec fn runs_after(nr: spec_fn(u64) -> int, nr2: spec_fn(u64) -> int, ins: Insertion) -> bool {
    forall|i: u64| #[trigger] nr2(i) == (if i == ins.text.inserted_by { ins.run_ts + 1 } else { nr(i) })
}
pub proof fn merge_runs_ok(s: Seq<Ch>, nr: spec_fn(u64) -> int, nr2: spec_fn(u64) -> int, ins: Insertion)
    requires ins_ok(s, nr(ins.text.inserted_by), ins), runs_ok(s, nr), runs_after(nr, nr2, ins),
    ensures runs_ok(merge_ins(s, ins), nr2),
{
    let id = ins.text.inserted_by;
    place_is(s, nr(id), ins);
    merge_counts(s, nr(id), ins);
    merge_gap_free(s, nr(id), ins);
    let t = merge_ins(s, ins);
    let p = ins_place(s, ins);
    let b = ins_block(ins);
    let n = b.len() as int;
    let start = ins.text.range.start as int;
    let a = anchor_place(s, ins.anchor) - 1;
    at_is(s, ins.anchor.replica_id, ins.anchor.offset - 1);
    let goes_on = ins.anchor.replica_id == id && ins.anchor.contained_in == ins.run_ts;
    // every character is from `s` or a new one
    assert forall|i: int| 0 <= i < t.len() implies
        (if p <= i < p + n { #[trigger] t[i] == (Ch { id, off: start + i - p, run: ins.run_ts, lam: ins.lamport_ts, del: false }) }
         else { t[i] == s[if i < p { i } else { i - n }] }) by {
        splice_at(s, p, b, i);
    }
    if goes_on {
        assert(s[a].id == id && s[a].off == start - 1 && s[a].run == ins.run_ts && s[a].lam == ins.lamport_ts);
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id implies
            s[i].off < start && s[i].run <= ins.run_ts && (s[i].run == ins.run_ts <==> s[i].lam == ins.lamport_ts)
            && (s[i].run == ins.run_ts ==> i <= a) by {
            if s[i].run == ins.run_ts && i > a { assert(s[a].off < s[i].off); }
        }
    } else {
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id implies
            s[i].off < start && s[i].run < ins.run_ts && s[i].lam < ins.lamport_ts by {}
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).id == (#[trigger] t[j]).id implies {
        &&& t[i].off < t[j].off ==> t[i].run <= t[j].run
        &&& t[i].run == t[j].run <==> t[i].lam == t[j].lam
        &&& t[i].run == t[j].run && i < j ==> t[i].off < t[j].off
    } by {
        let k = if i < p { i } else { i - n };
        let l = if j < p { j } else { j - n };
        if p <= i < p + n {
            if !(p <= j < p + n) { assert(t[j] == s[l]); assert(s[l].id == id); }
        } else {
            assert(t[i] == s[k]);
            if !(p <= j < p + n) { assert(t[j] == s[l]); }
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies 0 <= (#[trigger] t[i]).run < nr2(t[i].id) by {
        let k = if i < p { i } else { i - n };
        if !(p <= i < p + n) { assert(t[i] == s[k]); }
    }
    assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).off == count(t, t[i].id) - 1 implies t[i].run == nr2(t[i].id) - 1 by {
        let k = if i < p { i } else { i - n };
        if !(p <= i < p + n) { assert(t[i] == s[k]); }
    }
}
pub proof fn merge_ages_ok(s: Seq<Ch>, nr: spec_fn(u64) -> int, ins: Insertion)
    requires ins_ok(s, nr(ins.text.inserted_by), ins), runs_ok(s, nr), ages_ok(s),
    ensures ages_ok(merge_ins(s, ins)),
{
    let id = ins.text.inserted_by;
    place_is(s, nr(id), ins);
    let t = merge_ins(s, ins);
    let p = ins_place(s, ins);
    let b = ins_block(ins);
    let n = b.len() as int;
    let start = ins.text.range.start as int;
    let a = anchor_place(s, ins.anchor) - 1;
    at_is(s, ins.anchor.replica_id, ins.anchor.offset - 1);
    scan_is(s, a + 1, ins.lamport_ts, id);
    assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] age_pair(t, i) by {
        splice_at(s, p, b, i);
        splice_at(s, p, b, i + 1);
        if i + 1 < p { assert(age_pair(s, i)); }
        if i >= p + n { assert(age_pair(s, i - n)); }
        if i + 1 < p {
            assert(t[i] == s[i] && t[i + 1] == s[i + 1]);
        } else if i >= p + n {
            assert(t[i] == s[i - n] && t[i + 1] == s[i - n + 1]);
        } else if i + 1 == p {
            assert(t[i] == s[p - 1]);
            if p - 1 > a { assert(beats(s[p - 1].lam, s[p - 1].id, ins.lamport_ts, id)); }
        } else if i == p + n - 1 {
            assert(t[i + 1] == s[p]);
            assert(!beats(s[p].lam, s[p].id, ins.lamport_ts, id));
            if s[p].id == id && s[p].lam == ins.lamport_ts && ins.anchor.replica_id == id && ins.anchor.contained_in == ins.run_ts {
                assert(s[a].lam == s[p].lam);
                assert(s[a].off < s[p].off);
            }
        }
    }
}
pub proof fn merge_young(s: Seq<Ch>, nruns: int, ins: Insertion, lam: u64, lam2: u64)
    requires ins_ok(s, nruns, ins), young(s, lam), lam2 >= lam, lam2 > ins.lamport_ts,
    ensures young(merge_ins(s, ins), lam2),
{
    place_is(s, nruns, ins);
    let t = merge_ins(s, ins);
    let p = ins_place(s, ins);
    let b = ins_block(ins);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).lam < lam2 by {
        splice_at(s, p, b, i);
        let k = if i < p { i } else { i - b.len() };
        if !(p <= i < p + b.len()) { assert(t[i] == s[k]); }
    }
}
pub proof fn block_ok(id: u64, len: int, lam: u64)
    requires len >= 0, lam > 0,
    ensures
        young(block(id, 0, len, 0, 0, false), lam),
        ages_ok(block(id, 0, len, 0, 0, false)),
        forall|i: u64| #[trigger] count(block(id, 0, len, 0, 0, false), i) == (if i == id { len } else { 0 }),
{
    assert forall|i: u64| #[trigger] count(block(id, 0, len, 0, 0, false), i) == (if i == id { len } else { 0 }) by {
        count_block(id, 0, len, 0, 0, false, i);
    }
}

// -- anchors
/// A range of characters is deleted by who has all there is of those that are
/// visible.
pub proof fn mark_is_known(s: Seq<Ch>, p: int, q: int, vm: VersionMap)
    requires
        0 <= p < q <= s.len(),
        forall|i: int| p <= i < q && !(#[trigger] s[i]).del ==> known(s[i], vm),
    ensures mark(s, p, q) == mark_known(s, p, q, vm),
{
    assert forall|i: int| 0 <= i < s.len() implies mark(s, p, q)[i] == mark_known(s, p, q, vm)[i] by {
        if p <= i < q && s[i].del { assert(dead(s[i]) == s[i]); }
    }
    assert(mark(s, p, q) =~= mark_known(s, p, q, vm));
}
