// Replicas that merged the same edits hold the same characters, in the same
// order; two characters are in the same order wherever both are.
%use edits.vx
%raw
pub ghost enum Edit { Ins(Insertion), Del(Deletion) }

/// What's made, by everyone, in the end: which run each character is in and how
/// old that is; how many characters and which edits there are; how many runs of a
/// replica there are before it inserts anything.
#[verifier::ext_equal]
pub ghost struct World {
    pub ch: spec_fn(u64, int) -> (u64, u64),
    pub len: spec_fn(u64) -> int,
    pub has: spec_fn(Edit) -> bool,
    pub runs0: spec_fn(u64) -> int,
}

/// How many runs the first `n` characters of a replica are in.
pub open spec fn runs_at(w: World, id: u64, n: int) -> int {
    if n == 0 { (w.runs0)(id) } else { (w.ch)(id, n - 1).0 + 1 }
}
pub open spec fn agrees(w: World, s: Seq<Ch>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).run == (w.ch)(s[i].id, s[i].off).0 && s[i].lam == (w.ch)(s[i].id, s[i].off).1
}
pub open spec fn inv(w: World, s: Seq<Ch>) -> bool {
    gap_free(s) && agrees(w, s) && forall|id: u64| #[trigger] count(s, id) <= (w.len)(id)
}

/// An insertion as its author made it.
pub open spec fn made_ins(w: World, e: Insertion) -> bool {
    let id = e.text.inserted_by;
    let start = e.text.range.start as int;
    let a = e.anchor;
    &&& id != 0
    &&& start < e.text.range.end <= (w.len)(id)
    &&& e.lamport_ts < u64::MAX
    &&& runs_at(w, id, start) < u64::MAX
    &&& forall|o: int| start <= o < e.text.range.end ==> #[trigger] (w.ch)(id, o) == (e.run_ts, e.lamport_ts)
    &&& a.replica_id != 0 ==> a.offset > 0 && (w.ch)(a.replica_id, a.offset - 1).0 == a.contained_in
    &&& if a.replica_id == id && a.contained_in == e.run_ts {
        &&& a.offset == start
        &&& e.run_ts == runs_at(w, id, start) - 1
        &&& (w.ch)(id, start - 1).1 == e.lamport_ts
    } else {
        &&& e.run_ts == runs_at(w, id, start)
        &&& e.lamport_ts >= 1
        &&& a.replica_id != 0 ==> (w.ch)(a.replica_id, a.offset - 1).1 < e.lamport_ts
        &&& forall|o: int| 0 <= o < start ==> (#[trigger] (w.ch)(id, o)).1 < e.lamport_ts
    }
}
/// Everything the edit depends on is there.
pub open spec fn ready(w: World, s: Seq<Ch>, e: Edit) -> bool {
    match e {
        Edit::Ins(e) => {
            &&& made_ins(w, e)
            &&& count(s, e.text.inserted_by) == e.text.range.start
            &&& e.anchor.replica_id != 0 ==> e.anchor.offset <= count(s, e.anchor.replica_id)
        },
        Edit::Del(d) => {
            &&& d.start.replica_id != 0 && d.end.replica_id != 0 && d.end.offset > 0
            &&& d.start.offset < count(s, d.start.replica_id)
            &&& d.end.offset <= count(s, d.end.replica_id)
            &&& forall|id: u64| #[trigger] d.version_map.at(id) <= count(s, id)
        },
    }
}
pub open spec fn apply(s: Seq<Ch>, e: Edit) -> Seq<Ch> {
    match e { Edit::Ins(e) => merge_ins(s, e), Edit::Del(d) => merge_del(s, d) }
}
pub open spec fn apply_all(s: Seq<Ch>, es: Seq<Edit>) -> Seq<Ch>
    decreases es.len(),
{
    if es.len() == 0 { s } else { apply_all(apply(s, es[0]), es.drop_first()) }
}
/// Each is ready when it's merged.
pub open spec fn valid(w: World, s: Seq<Ch>, es: Seq<Edit>) -> bool
    decreases es.len(),
{
    es.len() > 0 ==> ready(w, s, es[0]) && valid(w, apply(s, es[0]), es.drop_first())
}
pub open spec fn apart(a: Edit, b: Edit) -> bool {
    match (a, b) {
        (Edit::Ins(a), Edit::Ins(b)) => a.text.inserted_by != b.text.inserted_by
            || a.text.range.end <= b.text.range.start || b.text.range.end <= a.text.range.start,
        _ => true,
    }
}
/// No two of them insert the same characters.
pub open spec fn uniq(es: Seq<Edit>) -> bool {
    forall|i: int, j: int| 0 <= i < j < es.len() ==> apart(#[trigger] es[i], #[trigger] es[j])
}
pub open spec fn inserts(e: Edit, id: u64, off: int) -> bool {
    match e { Edit::Ins(e) => e.text.inserted_by == id && e.text.range.start <= off < e.text.range.end, _ => false }
}

pub proof fn at_there(s: Seq<Ch>, id: u64, off: int)
    requires gap_free(s), 0 <= off < count(s, id),
    ensures 0 <= at(s, id, off) < s.len(), s[at(s, id, off)].id == id, s[at(s, id, off)].off == off,
{ at_some(s, id, off); }
pub proof fn due(w: World, s: Seq<Ch>, e: Insertion)
    requires inv(w, s), ready(w, s, Edit::Ins(e)),
    ensures ins_due(s, runs_at(w, e.text.inserted_by, count(s, e.text.inserted_by) as int), e),
{
    let a = e.anchor;
    let id = e.text.inserted_by;
    if a.replica_id != 0 { at_there(s, a.replica_id, a.offset - 1); }
    if e.text.range.start > 0 { at_there(s, id, e.text.range.start - 1); }
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id implies 0 <= s[i].off < e.text.range.start by {}
}
pub proof fn keeps(w: World, s: Seq<Ch>, e: Edit)
    requires inv(w, s), ready(w, s, e),
    ensures
        inv(w, apply(s, e)),
        forall|id: u64| #[trigger] count(apply(s, e), id) ==
            (match e { Edit::Ins(x) => if x.text.inserted_by == id { x.text.range.end as int } else { count(s, id) as int }, _ => count(s, id) as int }),
        forall|id: u64| #[trigger] count(apply(s, e), id) >= count(s, id),
{
    let t = apply(s, e);
    match e {
        Edit::Ins(x) => {
            let id = x.text.inserted_by;
            let n = runs_at(w, id, count(s, id) as int);
            due(w, s, x);
            merge_counts(s, n, x);
            merge_gap_free(s, n, x);
            place_is(s, n, x);
            let p = ins_place(s, x);
            let b = ins_block(x);
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).run == (w.ch)(t[i].id, t[i].off).0 && t[i].lam == (w.ch)(t[i].id, t[i].off).1 by {
                splice_at(s, p, b, i);
                if i < p { assert(t[i] == s[i]); }
                else if i >= p + b.len() { assert(t[i] == s[i - b.len()]); }
                else { assert(t[i] == b[i - p]); }
            }
        },
        Edit::Del(d) => {
            assert(twins(s, t));
            twins_keep(s, t, |id: u64| 0, 0);
        },
    }
}
/// Where a character of `s` is after `n` others were put at `x`.
pub open spec fn shifted(i: int, x: int, n: int) -> int { if i < x { i } else { i + n } }
pub proof fn ins_moves(w: World, s: Seq<Ch>, e: Insertion, id: u64, off: int)
    requires inv(w, s), ready(w, s, Edit::Ins(e)), 0 <= off < count(s, id),
    ensures at(merge_ins(s, e), id, off) == shifted(at(s, id, off), ins_place(s, e), e.text.range.end - e.text.range.start),
{
    let t = merge_ins(s, e);
    keeps(w, s, Edit::Ins(e));
    due(w, s, e);
    place_is(s, runs_at(w, e.text.inserted_by, count(s, e.text.inserted_by) as int), e);
    at_there(s, id, off);
    let i = at(s, id, off);
    let j = shifted(i, ins_place(s, e), e.text.range.end - e.text.range.start);
    splice_at(s, ins_place(s, e), ins_block(e), j);
    assert(t[j] == s[i]);
    at_only(t, j);
}
pub proof fn twins_at(s: Seq<Ch>, t: Seq<Ch>, id: u64, off: int)
    requires gap_free(s), twins(s, t), 0 <= off < count(s, id),
    ensures at(t, id, off) == at(s, id, off),
{
    twins_keep(s, t, |id: u64| 0, 0);
    at_there(s, id, off);
    at_only(t, at(s, id, off));
}
pub proof fn twins_place(w: World, s: Seq<Ch>, t: Seq<Ch>, e: Insertion)
    requires inv(w, s), twins(s, t), ready(w, s, Edit::Ins(e)),
    ensures ins_place(t, e) == ins_place(s, e), 0 <= ins_place(s, e) <= s.len(),
{
    due(w, s, e);
    place_is(s, runs_at(w, e.text.inserted_by, count(s, e.text.inserted_by) as int), e);
    if e.anchor.replica_id != 0 { twins_at(s, t, e.anchor.replica_id, e.anchor.offset - 1); }
    scan_is(s, anchor_place(s, e.anchor), e.lamport_ts, e.text.inserted_by);
    let p = ins_place(s, e);
    assert forall|i: int| anchor_place(s, e.anchor) <= i < p implies beats((#[trigger] t[i]).lam, t[i].id, e.lamport_ts, e.text.inserted_by) by {
        assert(beats(s[i].lam, s[i].id, e.lamport_ts, e.text.inserted_by));
    }
    if p < t.len() { assert(t[p].lam == s[p].lam); }
    scan_only(t, anchor_place(t, e.anchor), e.lamport_ts, e.text.inserted_by, p);
}
/// `a` goes before `b`.
pub open spec fn first(s: Seq<Ch>, a: Insertion, b: Insertion) -> bool {
    ins_place(s, a) < ins_place(s, b)
        || (ins_place(s, a) == ins_place(s, b) && beats(a.lamport_ts, a.text.inserted_by, b.lamport_ts, b.text.inserted_by))
}
pub proof fn place_bounds(w: World, s: Seq<Ch>, a: Insertion)
    requires inv(w, s), ready(w, s, Edit::Ins(a)),
    ensures
        0 <= anchor_place(s, a.anchor) <= ins_place(s, a) <= s.len(),
        a.anchor.replica_id != 0 ==> anchor_place(s, a.anchor) > 0,
        forall|i: int| anchor_place(s, a.anchor) <= i < ins_place(s, a) ==> beats((#[trigger] s[i]).lam, s[i].id, a.lamport_ts, a.text.inserted_by),
        ins_place(s, a) < s.len() ==> !beats(s[ins_place(s, a)].lam, s[ins_place(s, a)].id, a.lamport_ts, a.text.inserted_by),
        ins_block(a).len() == a.text.range.end - a.text.range.start,
        ins_block(a).len() > 0,
{
    let i = a.text.inserted_by;
    due(w, s, a);
    place_is(s, runs_at(w, i, count(s, i) as int), a);
    scan_is(s, anchor_place(s, a.anchor), a.lamport_ts, i);
}
pub proof fn second_moves(w: World, s: Seq<Ch>, a: Insertion, b: Insertion)
    requires
        inv(w, s), ready(w, s, Edit::Ins(a)), ready(w, s, Edit::Ins(b)), a.text.inserted_by != b.text.inserted_by,
        first(s, a, b),
    ensures ins_place(merge_ins(s, a), b) == ins_place(s, b) + ins_block(a).len(),
{
    let (ia, ib) = (a.text.inserted_by, b.text.inserted_by);
    place_bounds(w, s, a);
    place_bounds(w, s, b);
    let ta = merge_ins(s, a);
    let (xa, xb) = (ins_place(s, a), ins_place(s, b));
    let ba = ins_block(a);
    let na = ba.len() as int;
    let pb = anchor_place(s, b.anchor);
    let pb2 = if b.anchor.replica_id == 0 { 0 } else { shifted(pb - 1, xa, na) + 1 };
    if b.anchor.replica_id != 0 { ins_moves(w, s, a, b.anchor.replica_id, b.anchor.offset - 1); }
    assert(anchor_place(ta, b.anchor) == pb2);
    if xa < xb && pb <= xa {
        assert(beats(s[xa].lam, s[xa].id, b.lamport_ts, ib));
        assert(!beats(s[xa].lam, s[xa].id, a.lamport_ts, ia));
        assert(beats(a.lamport_ts, ia, b.lamport_ts, ib));
    }
    assert forall|i: int| pb2 <= i < xb + na implies beats((#[trigger] ta[i]).lam, ta[i].id, b.lamport_ts, ib) by {
        splice_at(s, xa, ba, i);
        if i < xa { assert(ta[i] == s[i]); }
        else if i < xa + na { assert(ta[i] == ba[i - xa]); }
        else { assert(ta[i] == s[i - na]); }
    }
    splice_at(s, xa, ba, 0);
    if xb + na < ta.len() {
        splice_at(s, xa, ba, xb + na);
        assert(ta[xb + na] == s[xb]);
    }
    scan_only(ta, pb2, b.lamport_ts, ib, xb + na);
}
pub proof fn first_stays(w: World, s: Seq<Ch>, a: Insertion, b: Insertion)
    requires
        inv(w, s), ready(w, s, Edit::Ins(a)), ready(w, s, Edit::Ins(b)), a.text.inserted_by != b.text.inserted_by,
        first(s, a, b),
    ensures ins_place(merge_ins(s, b), a) == ins_place(s, a),
{
    let (ia, ib) = (a.text.inserted_by, b.text.inserted_by);
    place_bounds(w, s, a);
    place_bounds(w, s, b);
    let tb = merge_ins(s, b);
    let (xa, xb) = (ins_place(s, a), ins_place(s, b));
    let bb = ins_block(b);
    let pa = anchor_place(s, a.anchor);
    if a.anchor.replica_id != 0 { ins_moves(w, s, b, a.anchor.replica_id, a.anchor.offset - 1); }
    assert(anchor_place(tb, a.anchor) == pa);
    assert forall|i: int| pa <= i < xa implies beats((#[trigger] tb[i]).lam, tb[i].id, a.lamport_ts, ia) by {
        splice_at(s, xb, bb, i);
        assert(tb[i] == s[i]);
    }
    splice_at(s, xb, bb, xa);
    if xa < xb { assert(tb[xa] == s[xa]); } else { assert(tb[xa] == bb[0]); }
    scan_only(tb, pa, a.lamport_ts, ia, xa);
}
pub proof fn splice_splice(s: Seq<Ch>, x: int, a: Seq<Ch>, y: int, b: Seq<Ch>)
    requires 0 <= x <= y <= s.len(),
    ensures splice(splice(s, x, a), y + a.len(), b) == splice(splice(s, y, b), x, a),
{
    let l = splice(splice(s, x, a), y + a.len(), b);
    let r = splice(splice(s, y, b), x, a);
    let n = a.len() as int;
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        splice_at(splice(s, x, a), y + n, b, i);
        splice_at(splice(s, y, b), x, a, i);
        if i < y + n { splice_at(s, x, a, i); }
        if i >= y + n + b.len() { splice_at(s, x, a, i - b.len()); }
        if i < x { splice_at(s, y, b, i); }
        if i >= x + n { splice_at(s, y, b, i - n); }
    }
    assert(l =~= r);
}
pub proof fn one_first(w: World, s: Seq<Ch>, a: Insertion, b: Insertion)
    requires
        inv(w, s), ready(w, s, Edit::Ins(a)), ready(w, s, Edit::Ins(b)), a.text.inserted_by != b.text.inserted_by,
        first(s, a, b),
    ensures merge_ins(merge_ins(s, a), b) == merge_ins(merge_ins(s, b), a),
{
    place_bounds(w, s, a);
    place_bounds(w, s, b);
    second_moves(w, s, a, b);
    first_stays(w, s, a, b);
    splice_splice(s, ins_place(s, a), ins_block(a), ins_place(s, b), ins_block(b));
}
pub proof fn ins_ins(w: World, s: Seq<Ch>, a: Insertion, b: Insertion)
    requires inv(w, s), ready(w, s, Edit::Ins(a)), ready(w, s, Edit::Ins(b)), a.text.inserted_by != b.text.inserted_by,
    ensures merge_ins(merge_ins(s, a), b) == merge_ins(merge_ins(s, b), a),
{
    place_bounds(w, s, a);
    place_bounds(w, s, b);
    if first(s, a, b) {
        one_first(w, s, a, b);
    } else {
        one_first(w, s, b, a);
    }
}
pub proof fn ins_del(w: World, s: Seq<Ch>, a: Insertion, d: Deletion)
    requires inv(w, s), ready(w, s, Edit::Ins(a)), ready(w, s, Edit::Del(d)),
    ensures merge_del(merge_ins(s, a), d) == merge_ins(merge_del(s, d), a),
{
    let s1 = merge_del(s, d);
    let t = merge_ins(s, a);
    assert(twins(s, s1));
    twins_place(w, s, s1, a);
    keeps(w, s, Edit::Ins(a));
    ins_moves(w, s, a, d.start.replica_id, d.start.offset as int);
    ins_moves(w, s, a, d.end.replica_id, d.end.offset - 1);
    at_there(s, d.start.replica_id, d.start.offset as int);
    at_there(s, d.end.replica_id, d.end.offset - 1);
    let x = ins_place(s, a);
    let b = ins_block(a);
    let n = b.len() as int;
    let l = merge_del(t, d);
    let r = merge_ins(s1, a);
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        splice_at(s, x, b, i);
        splice_at(s1, x, b, i);
        if i < x { assert(t[i] == s[i] && r[i] == s1[i]); }
        else if i < x + n { assert(t[i] == b[i - x] && r[i] == b[i - x]); assert(!known(t[i], d.version_map)); }
        else { assert(t[i] == s[i - n] && r[i] == s1[i - n]); }
    }
    assert(l =~= r);
}
pub proof fn del_del(w: World, s: Seq<Ch>, c: Deletion, d: Deletion)
    requires inv(w, s), ready(w, s, Edit::Del(c)), ready(w, s, Edit::Del(d)),
    ensures merge_del(merge_del(s, c), d) == merge_del(merge_del(s, d), c),
{
    let sc = merge_del(s, c);
    let sd = merge_del(s, d);
    assert(twins(s, sc));
    assert(twins(s, sd));
    twins_at(s, sc, d.start.replica_id, d.start.offset as int);
    twins_at(s, sc, d.end.replica_id, d.end.offset - 1);
    twins_at(s, sd, c.start.replica_id, c.start.offset as int);
    twins_at(s, sd, c.end.replica_id, c.end.offset - 1);
    assert(merge_del(sc, d) =~= merge_del(sd, c));
}
/// Of two edits neither of which depends on the other, it doesn't matter which
/// is merged first.
pub proof fn commute(w: World, s: Seq<Ch>, x: Edit, y: Edit)
    requires inv(w, s), ready(w, s, x), ready(w, s, y), apart(x, y),
    ensures
        apply(apply(s, x), y) == apply(apply(s, y), x),
        ready(w, apply(s, x), y),
        ready(w, apply(s, y), x),
{
    keeps(w, s, x);
    keeps(w, s, y);
    match (x, y) {
        (Edit::Ins(a), Edit::Ins(b)) => { ins_ins(w, s, a, b); },
        (Edit::Ins(a), Edit::Del(d)) => { ins_del(w, s, a, d); },
        (Edit::Del(d), Edit::Ins(a)) => { ins_del(w, s, a, d); },
        (Edit::Del(c), Edit::Del(d)) => { del_del(w, s, c, d); },
    }
}
pub proof fn move_front(w: World, s: Seq<Ch>, es: Seq<Edit>, i: int)
    requires inv(w, s), valid(w, s, es), uniq(es), 0 <= i < es.len(), ready(w, s, es[i]),
    ensures
        valid(w, apply(s, es[i]), es.remove(i)),
        apply_all(apply(s, es[i]), es.remove(i)) == apply_all(s, es),
    decreases i,
{
    if i == 0 {
        assert(es.remove(0) =~= es.drop_first());
    } else {
        let e = es[0];
        let x = es[i];
        let tail = es.drop_first();
        assert(apart(e, x));
        commute(w, s, e, x);
        keeps(w, s, e);
        assert(tail[i - 1] == x);
        assert(uniq(tail)) by {
            assert forall|a: int, b: int| 0 <= a < b < tail.len() implies apart(#[trigger] tail[a], #[trigger] tail[b]) by {
                assert(apart(es[a + 1], es[b + 1]));
            }
        }
        move_front(w, apply(s, e), tail, i - 1);
        let r = es.remove(i);
        assert(r[0] == e);
        assert(r.drop_first() =~= tail.remove(i - 1));
    }
}
pub proof fn uniq_remove(es: Seq<Edit>, i: int)
    requires uniq(es), 0 <= i < es.len(), es.no_duplicates(),
    ensures uniq(es.remove(i)), es.remove(i).no_duplicates(), forall|x: Edit| es.contains(x) && x != es[i] ==> #[trigger] es.remove(i).contains(x),
        forall|x: Edit| #[trigger] es.remove(i).contains(x) ==> es.contains(x) && x != es[i],
{
    let r = es.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies apart(#[trigger] r[a], #[trigger] r[b]) by {
        let a2 = if a < i { a } else { a + 1 };
        let b2 = if b < i { b } else { b + 1 };
        assert(apart(es[a2], es[b2]));
    }
    assert forall|x: Edit| es.contains(x) && x != es[i] implies #[trigger] r.contains(x) by {
        let k = choose|k: int| 0 <= k < es.len() && es[k] == x;
        let k2 = if k < i { k } else { k - 1 };
        assert(r[k2] == x);
    }
    assert forall|x: Edit| #[trigger] r.contains(x) implies es.contains(x) && x != es[i] by {
        let k = choose|k: int| 0 <= k < r.len() && r[k] == x;
        let k2 = if k < i { k } else { k + 1 };
        assert(es[k2] == x);
    }
}
/// What's merged in the order of `es` can be merged in the order of `fs` and then
/// the rest.
pub proof fn prefix(w: World, s: Seq<Ch>, es: Seq<Edit>, fs: Seq<Edit>) -> (rest: Seq<Edit>)
    requires
        inv(w, s), valid(w, s, es), valid(w, s, fs), uniq(es), es.no_duplicates(), fs.no_duplicates(),
        forall|x: Edit| #[trigger] fs.contains(x) ==> es.contains(x),
    ensures
        inv(w, apply_all(s, fs)),
        valid(w, apply_all(s, fs), rest),
        apply_all(apply_all(s, fs), rest) == apply_all(s, es),
        rest.len() == es.len() - fs.len(),
    decreases fs.len(),
{
    if fs.len() == 0 { es } else {
        let x = fs[0];
        assert(fs.contains(x));
        let i = choose|i: int| 0 <= i < es.len() && es[i] == x;
        move_front(w, s, es, i);
        keeps(w, s, x);
        let tail = fs.drop_first();
        uniq_remove(es, i);
        assert forall|y: Edit| #[trigger] tail.contains(y) implies es.remove(i).contains(y) by {
            let k = choose|k: int| 0 <= k < tail.len() && tail[k] == y;
            assert(fs[k + 1] == y);
            assert(fs.contains(y));
            assert(fs[0] != fs[k + 1]);
        }
        assert(tail.no_duplicates()) by {
            assert forall|a: int, b: int| 0 <= a < tail.len() && 0 <= b < tail.len() && a != b implies tail[a] != tail[b] by {
                assert(fs[a + 1] != fs[b + 1]);
            }
        }
        prefix(w, apply(s, x), es.remove(i), tail)
    }
}
/// C01: whoever merged the same edits has the same document.
pub proof fn converge(w: World, s: Seq<Ch>, es: Seq<Edit>, fs: Seq<Edit>)
    requires
        inv(w, s), valid(w, s, es), valid(w, s, fs), uniq(es), uniq(fs), es.no_duplicates(), fs.no_duplicates(),
        forall|x: Edit| #[trigger] fs.contains(x) <==> es.contains(x),
    ensures apply_all(s, es) == apply_all(s, fs),
{
    let r = prefix(w, s, es, fs);
    let q = prefix(w, s, fs, es);
    assert(r.len() == 0);
}
/// What of two edits are the same edit or about other characters.
pub open spec fn apart_all(es: Seq<Edit>, fs: Seq<Edit>) -> bool {
    forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < fs.len() && es[i] != fs[j] ==> apart(#[trigger] es[i], #[trigger] fs[j])
}
pub proof fn push(w: World, s: Seq<Ch>, x: Edit, es: Seq<Edit>)
    requires
        inv(w, s), ready(w, s, x), valid(w, s, es),
        forall|i: int| 0 <= i < es.len() ==> apart(x, #[trigger] es[i]),
    ensures
        valid(w, apply(s, x), es),
        ready(w, apply_all(s, es), x),
        apply_all(apply(s, x), es) == apply(apply_all(s, es), x),
        inv(w, apply_all(s, es)),
    decreases es.len(),
{
    if es.len() > 0 {
        let e = es[0];
        let tail = es.drop_first();
        keeps(w, s, e);
        commute(w, s, x, e);
        assert forall|i: int| 0 <= i < tail.len() implies apart(x, #[trigger] tail[i]) by { assert(apart(x, es[i + 1])); }
        push(w, apply(s, e), x, tail);
    }
}
/// Whatever two replicas have merged, there's a document both come to if they
/// merge what the other has.
pub proof fn join(w: World, s: Seq<Ch>, es: Seq<Edit>, fs: Seq<Edit>) -> (r: (Seq<Edit>, Seq<Edit>))
    requires
        inv(w, s), valid(w, s, es), valid(w, s, fs), uniq(es), es.no_duplicates(), fs.no_duplicates(), apart_all(es, fs),
    ensures
        inv(w, apply_all(s, es)), inv(w, apply_all(s, fs)),
        valid(w, apply_all(s, es), r.0),
        valid(w, apply_all(s, fs), r.1),
        apply_all(apply_all(s, es), r.0) == apply_all(apply_all(s, fs), r.1),
    decreases fs.len(),
{
    if fs.len() == 0 {
        all_keep(w, s, es);
        (Seq::empty(), es)
    } else {
        let x = fs[0];
        let tail = fs.drop_first();
        keeps(w, s, x);
        assert(tail.no_duplicates()) by {
            assert forall|a: int, b: int| 0 <= a < tail.len() && 0 <= b < tail.len() && a != b implies tail[a] != tail[b] by {
                assert(fs[a + 1] != fs[b + 1]);
            }
        }
        if es.contains(x) {
            let i = choose|i: int| 0 <= i < es.len() && es[i] == x;
            move_front(w, s, es, i);
            uniq_remove(es, i);
            let rest = es.remove(i);
            assert forall|a: int, b: int| 0 <= a < rest.len() && 0 <= b < tail.len() && rest[a] != tail[b] implies apart(#[trigger] rest[a], #[trigger] tail[b]) by {
                let a2 = if a < i { a } else { a + 1 };
                assert(apart(es[a2], fs[b + 1]));
            }
            join(w, apply(s, x), rest, tail)
        } else {
            assert forall|i: int| 0 <= i < es.len() implies apart(x, #[trigger] es[i]) by {
                assert(es[i] != fs[0]) by { assert(es.contains(es[i])); }
                assert(apart(es[i], fs[0]));
            }
            push(w, s, x, es);
            assert forall|a: int, b: int| 0 <= a < es.len() && 0 <= b < tail.len() && es[a] != tail[b] implies apart(#[trigger] es[a], #[trigger] tail[b]) by {
                assert(apart(es[a], fs[b + 1]));
            }
            let (p, q) = join(w, apply(s, x), es, tail);
            let r = seq![x] + p;
            assert(r[0] == x);
            assert(r.drop_first() =~= p);
            (r, q)
        }
    }
}
pub proof fn all_keep(w: World, s: Seq<Ch>, es: Seq<Edit>)
    requires inv(w, s), valid(w, s, es),
    ensures inv(w, apply_all(s, es)), forall|id: u64| #[trigger] count(apply_all(s, es), id) >= count(s, id),
    decreases es.len(),
{
    if es.len() > 0 {
        keeps(w, s, es[0]);
        all_keep(w, apply(s, es[0]), es.drop_first());
        assert forall|id: u64| #[trigger] count(apply_all(s, es), id) >= count(s, id) by {
            assert(count(apply(s, es[0]), id) >= count(s, id));
        }
    }
}
/// What's merged later doesn't change the order of what's there.
pub proof fn order_kept(w: World, s: Seq<Ch>, es: Seq<Edit>, a: (u64, int), b: (u64, int))
    requires
        inv(w, s), valid(w, s, es), 0 <= a.1 < count(s, a.0), 0 <= b.1 < count(s, b.0),
    ensures
        at(apply_all(s, es), a.0, a.1) < at(apply_all(s, es), b.0, b.1) <==> at(s, a.0, a.1) < at(s, b.0, b.1),
        at(apply_all(s, es), a.0, a.1) == at(apply_all(s, es), b.0, b.1) <==> at(s, a.0, a.1) == at(s, b.0, b.1),
    decreases es.len(),
{
    if es.len() > 0 {
        let t = apply(s, es[0]);
        keeps(w, s, es[0]);
        match es[0] {
            Edit::Ins(e) => { ins_moves(w, s, e, a.0, a.1); ins_moves(w, s, e, b.0, b.1); place_bounds(w, s, e); },
            Edit::Del(d) => { assert(twins(s, t)); twins_at(s, t, a.0, a.1); twins_at(s, t, b.0, b.1); },
        }
        assert(count(t, a.0) >= count(s, a.0));
        assert(count(t, b.0) >= count(s, b.0));
        order_kept(w, t, es.drop_first(), a, b);
    }
}
/// Two characters are in the same order wherever both are.
pub proof fn same_order(w: World, s: Seq<Ch>, es: Seq<Edit>, fs: Seq<Edit>, a: (u64, int), b: (u64, int))
    requires
        inv(w, s), valid(w, s, es), valid(w, s, fs), uniq(es), es.no_duplicates(), fs.no_duplicates(), apart_all(es, fs),
        0 <= a.1 < count(apply_all(s, es), a.0), 0 <= b.1 < count(apply_all(s, es), b.0),
        0 <= a.1 < count(apply_all(s, fs), a.0), 0 <= b.1 < count(apply_all(s, fs), b.0),
    ensures
        at(apply_all(s, es), a.0, a.1) < at(apply_all(s, es), b.0, b.1) <==> at(apply_all(s, fs), a.0, a.1) < at(apply_all(s, fs), b.0, b.1),
        at(apply_all(s, es), a.0, a.1) == at(apply_all(s, es), b.0, b.1) <==> at(apply_all(s, fs), a.0, a.1) == at(apply_all(s, fs), b.0, b.1),
{
    let (p, q) = join(w, s, es, fs);
    order_kept(w, apply_all(s, es), p, a, b);
    order_kept(w, apply_all(s, fs), q, a, b);
}
/// One more.
pub proof fn one_more(w: World, s: Seq<Ch>, es: Seq<Edit>, x: Edit)
    requires inv(w, s), valid(w, s, es), ready(w, apply_all(s, es), x),
    ensures valid(w, s, es.push(x)), apply_all(s, es.push(x)) == apply(apply_all(s, es), x),
    decreases es.len(),
{
    let fs = es.push(x);
    if es.len() == 0 {
        assert(fs.drop_first() =~= Seq::empty());
        assert(fs[0] == x);
        assert(valid(w, apply(s, x), fs.drop_first()));
        assert(apply_all(apply(s, x), fs.drop_first()) == apply(s, x));
    } else {
        keeps(w, s, es[0]);
        one_more(w, apply(s, es[0]), es.drop_first(), x);
        assert(fs.drop_first() =~= es.drop_first().push(x));
        assert(fs[0] == es[0]);
    }
}
