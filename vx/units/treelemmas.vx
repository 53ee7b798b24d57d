// Facts about the tree of a document.
%use leaflemmas.vx
%raw
pub proof fn count_all_block(v: EditRun)
    requires v.wf(),
    ensures forall|i: u64| #[trigger] count(v.chars(), i) == (if i == v.text.inserted_by { v.n() } else { 0 }),
{
    assert forall|i: u64| #[trigger] count(v.chars(), i) == (if i == v.text.inserted_by { v.n() } else { 0 }) by {
        count_block(v.text.inserted_by, v.text.range.start as int, v.text.range.end as int, v.run_ts, v.lamport_ts, v.is_deleted, i);
    }
}
pub proof fn block_runs_ok(v: EditRun, nr: spec_fn(u64) -> int)
    requires v.wf(), v.text.inserted_by != 0, v.text.range.start == 0, v.run_ts == 0, nr(v.text.inserted_by) == 1,
    ensures runs_ok(v.chars(), nr),
{
    let s = v.chars();
    count_all_block(v);
    assert forall|id: u64, off: int| 0 <= off < count(s, id) implies #[trigger] has_char(s, id, off) by {
        assert(s[off].id == id);
    }
}

/// The first visible leaf from `i` on, when there's more to see.
pub proof fn first_visible(ls: Ls, i: int, k: int)
    requires
        leaves_ok(ls), empty_ok(ls), 0 <= i <= k < ls.len(), !ls[k].v.is_deleted,
        forall|j: int| i <= j < k ==> (#[trigger] ls[j]).v.is_deleted,
        vsum(ls, i) < vsum(ls, ls.len() as int),
    ensures vsum(ls, k) == vsum(ls, i), ls[k].v.n() > 0,
{
    all_deleted(ls, i, k);
}
pub proof fn all_deleted(ls: Ls, i: int, k: int)
    requires leaves_ok(ls), 0 <= i <= k <= ls.len(), forall|j: int| i <= j < k ==> (#[trigger] ls[j]).v.is_deleted,
    ensures vsum(ls, k) == vsum(ls, i),
    decreases k,
{
    if i < k { all_deleted(ls, i, k - 1); assert(ls[k - 1].v.is_deleted && ls[k - 1].v.wf()); }
}
pub proof fn some_visible(ls: Ls, i: int)
    requires leaves_ok(ls), 0 <= i <= ls.len(), vsum(ls, i) < vsum(ls, ls.len() as int),
    ensures exists|k: int| i <= k < ls.len() && !(#[trigger] ls[k]).v.is_deleted,
{
    if forall|j: int| i <= j < ls.len() ==> (#[trigger] ls[j]).v.is_deleted { all_deleted(ls, i, ls.len() as int); }
}

/// The leaves from `i` up to `k` make place for a run, the k-th doesn't.
pub open spec fn scanned(ls: Ls, i: int, k: int, lam: u64, id: u64) -> bool {
    &&& 0 <= i <= k <= ls.len()
    &&& forall|j: int| i <= j < k ==> beats((#[trigger] ls[j]).v.lamport_ts, ls[j].v.text.inserted_by, lam, id)
    &&& k < ls.len() ==> !beats(ls[k].v.lamport_ts, ls[k].v.text.inserted_by, lam, id)
}
pub proof fn scan_leaves(ls: Ls, i: int, k: int, lam: u64, id: u64)
    requires leaves_ok(ls), empty_ok(ls), scanned(ls, i, k, lam, id),
    ensures scan(cat(ls), pos(ls, i), lam, id) == pos(ls, k), 0 <= pos(ls, i) <= pos(ls, k) <= cat(ls).len(),
{
    let s = cat(ls);
    cat_cut(ls, i);
    cat_cut(ls, k);
    pos_le(ls, i, k);
    assert forall|c: int| pos(ls, i) <= c < pos(ls, k) implies beats((#[trigger] s[c]).lam, s[c].id, lam, id) by {
        let j = leaf_below(ls, c, k);
        cat_leaf(ls, j);
        if j < i { pos_le(ls, j + 1, i); }
    }
    if pos(ls, k) < s.len() {
        if k == ls.len() { assert(false); }
        cat_leaf(ls, k);
        if ls[k].v.n() == 0 { assert(k == ls.len() - 1); cat_cut(ls, k + 1); }
    }
    scan_only(s, pos(ls, i), lam, id, pos(ls, k));
}
/// A new part, at the end of what its replica inserted.
pub proof fn tables_insert(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, l: Lf<EditRun>)
    requires
        leaves_ok(ls), tables_ok(ls, ri), 0 <= k <= ls.len(), l.v.wf(), l.v.text.inserted_by != 0,
        forall|i: u64| i != l.v.text.inserted_by ==> #[trigger] ri2.of(i) == ri.of(i),
        table_ok(ri2.of(l.v.text.inserted_by)),
        sum(ri2.of(l.v.text.inserted_by)) == sum(ri.of(l.v.text.inserted_by)) + l.v.n(),
        forall|w: Fr| #[trigger] has_part(ri2.of(l.v.text.inserted_by), w) <==> has_part(ri.of(l.v.text.inserted_by), w) || w == fr_of(l),
    ensures tables_ok(ls.insert(k, l), ri2),
{
    let m = ls.insert(k, l);
    let me = l.v.text.inserted_by;
    cat_insert(ls, k, l);
    lf_insert(ls, k, l);
    assert forall|id: u64, w: Fr| #![trigger has_part(ri2.of(id), w)] #![trigger lf_has(m, id, w)] has_part(ri2.of(id), w) <==> lf_has(m, id, w) by {
        assert(has_part(ri.of(id), w) <==> lf_has(ls, id, w));
        if id != me { assert(ri2.of(id) == ri.of(id)); }
    }
    assert forall|id: u64| sum(#[trigger] ri2.of(id)) == count(cat(m), id) by {
        assert(sum(ri.of(id)) == count(cat(ls), id));
        if id != me { assert(ri2.of(id) == ri.of(id)); }
    }
    assert forall|id: u64| table_ok(#[trigger] ri2.of(id)) by {
        if id != me { assert(ri2.of(id) == ri.of(id)); assert(table_ok(ri.of(id))); }
    }
}
/// A part that's another one, nothing else changes.
pub proof fn tables_update(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, l: Lf<EditRun>)
    requires
        leaves_ok(ls), distinct(ls), tables_ok(ls, ri), 0 <= k < ls.len(), l.v.wf(), l.idx == ls[k].idx, l.v.text.inserted_by == ls[k].v.text.inserted_by,
        l.v.n() >= ls[k].v.n(),
        forall|i: u64| i != l.v.text.inserted_by ==> #[trigger] ri2.of(i) == ri.of(i),
        table_ok(ri2.of(l.v.text.inserted_by)),
        sum(ri2.of(l.v.text.inserted_by)) == sum(ri.of(l.v.text.inserted_by)) + l.v.n() - ls[k].v.n(),
        parts_become(ri.of(l.v.text.inserted_by), ri2.of(l.v.text.inserted_by), fr_of(ls[k]), fr_of(l), fr_of(l)),
        forall|i: u64| #[trigger] count(cat(ls.update(k, l)), i) == count(cat(ls), i) + if i == l.v.text.inserted_by { l.v.n() - ls[k].v.n() } else { 0 },
    ensures tables_ok(ls.update(k, l), ri2),
{
    let m = ls.update(k, l);
    let me = l.v.text.inserted_by;
    lf_update(ls, k, l);
    assert forall|id: u64, w: Fr| #![trigger has_part(ri2.of(id), w)] #![trigger lf_has(m, id, w)] has_part(ri2.of(id), w) <==> lf_has(m, id, w) by {
        assert(has_part(ri.of(id), w) <==> lf_has(ls, id, w));
        if id != me { assert(ri2.of(id) == ri.of(id)); }
    }
    assert forall|id: u64| sum(#[trigger] ri2.of(id)) == count(cat(m), id) by {
        assert(sum(ri.of(id)) == count(cat(ls), id));
        if id != me { assert(ri2.of(id) == ri.of(id)); }
    }
    assert forall|id: u64| table_ok(#[trigger] ri2.of(id)) by {
        if id != me { assert(ri2.of(id) == ri.of(id)); assert(table_ok(ri.of(id))); }
    }
}
/// A leaf in two.
pub proof fn tables_split(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, p: int, a: Lf<EditRun>, b: Lf<EditRun>)
    requires
        leaves_ok(ls), distinct(ls), tables_ok(ls, ri), 0 <= k < ls.len(), 0 <= p <= ls.len(), a.idx == ls[k].idx,
        a.v.text.inserted_by == ls[k].v.text.inserted_by, b.v.text.inserted_by == ls[k].v.text.inserted_by,
        forall|i: u64| i != a.v.text.inserted_by ==> #[trigger] ri2.of(i) == ri.of(i),
        table_ok(ri2.of(a.v.text.inserted_by)),
        shape_same(ri.of(a.v.text.inserted_by), ri2.of(a.v.text.inserted_by)),
        parts_become(ri.of(a.v.text.inserted_by), ri2.of(a.v.text.inserted_by), fr_of(ls[k]), fr_of(a), fr_of(b)),
        forall|i: u64| #[trigger] count(cat(ls.update(k, a).insert(p, b)), i) == count(cat(ls), i),
    ensures tables_ok(ls.update(k, a).insert(p, b), ri2),
{
    let u = ls.update(k, a);
    let m = u.insert(p, b);
    let me = a.v.text.inserted_by;
    lf_update(ls, k, a);
    lf_insert(u, p, b);
    assert forall|id: u64, w: Fr| #![trigger has_part(ri2.of(id), w)] #![trigger lf_has(m, id, w)] has_part(ri2.of(id), w) <==> lf_has(m, id, w) by {
        assert(has_part(ri.of(id), w) <==> lf_has(ls, id, w));
        assert(lf_has(m, id, w) <==> lf_has(u, id, w) || (id == me && w == fr_of(b)));
        if id != me { assert(ri2.of(id) == ri.of(id)); }
    }
    assert forall|id: u64| sum(#[trigger] ri2.of(id)) == count(cat(m), id) by {
        assert(sum(ri.of(id)) == count(cat(ls), id));
        if id != me { assert(ri2.of(id) == ri.of(id)); }
    }
    assert forall|id: u64| table_ok(#[trigger] ri2.of(id)) by {
        if id != me { assert(ri2.of(id) == ri.of(id)); assert(table_ok(ri.of(id))); }
    }
}
/// ...is the same document.
pub proof fn cat_split(ls: Ls, k: int, a: Lf<EditRun>, b: Lf<EditRun>, o: int)
    requires
        leaves_ok(ls), 0 <= k < ls.len(), 0 <= o <= ls[k].v.n(),
        a.v.part(&ls[k].v, 0, o), a.v.is_deleted == ls[k].v.is_deleted,
        b.v.part(&ls[k].v, o, ls[k].v.n()), b.v.is_deleted == ls[k].v.is_deleted,
    ensures
        leaves_ok(ls.update(k, a).insert(k + 1, b)),
        cat(ls.update(k, a).insert(k + 1, b)) == cat(ls),
        pos(ls.update(k, a).insert(k + 1, b), k + 1) == pos(ls, k) + o,
        vsum(ls.update(k, a).insert(k + 1, b), k + 1) == vsum(ls, k) + if ls[k].v.is_deleted { 0 } else { o },
{
    let u = ls.update(k, a);
    let m = u.insert(k + 1, b);
    assert(ls[k].v.wf());
    cat_leaf(ls, k);
    cat_update(ls, k, a);
    cat_insert(u, k + 1, b);
    pos_same(m, u, k + 1);
    pos_same(m, ls, k);
    assert(u[k] == a);
    assert(pos(u, k + 1) == pos(u, k) + o);
    assert(vsum(u, k + 1) == vsum(u, k) + a.v.vlen());
    let s = cat(ls);
    let x = s.subrange(0, pos(ls, k));
    let y = s.subrange(pos(ls, k + 1), s.len() as int);
    assert(a.v.chars() + b.v.chars() =~= ls[k].v.chars());
    assert(cat(u) == x + a.v.chars() + y);
    assert(cat(m) =~= x + (a.v.chars() + b.v.chars()) + y);
    assert(x + ls[k].v.chars() + y =~= s);
}
