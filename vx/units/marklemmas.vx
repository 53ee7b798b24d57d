// What deleting does to the leaves of a document: leaves are split, deleted, or
// give what's deleted of them to the one before or after them.
%use leaflemmas.vx
%use treelemmas.vx
%raw
pub open spec fn doc_ok(ls: Ls, ri: RunIndices) -> bool {
    &&& distinct(ls)
    &&& leaves_ok(ls)
    &&& tables_ok(ls, ri)
    &&& empty_ok(ls)
}
pub open spec fn same_size(ri: RunIndices, ri2: RunIndices) -> bool {
    forall|id: u64| (#[trigger] ri2.of(id)).len() == ri.of(id).len()
}
pub proof fn mark_twins(s: Seq<Ch>, i: int, j: int)
    ensures forall|id: u64| #[trigger] count(mark(s, i, j), id) == count(s, id),
{
    assert forall|id: u64| #[trigger] count(mark(s, i, j), id) == count(s, id) by { count_twins(s, mark(s, i, j), id); }
}
pub proof fn gone_leaf(ls: Ls, ri: RunIndices, k: int)
    requires doc_ok(ls, ri), 0 <= k < ls.len(), ls[k].v.n() > 0,
    ensures
        doc_ok(ls.update(k, gone(ls[k])), ri),
        cat(ls.update(k, gone(ls[k]))) == mark(cat(ls), pos(ls, k), pos(ls, k + 1)),
{
    let l = gone(ls[k]);
    let u = ls.update(k, l);
    let s = cat(ls);
    cat_leaf(ls, k);
    cat_update(ls, k, l);
    assert(l.v.chars() =~= ls[k].v.chars().map_values(|c: Ch| dead(c)));
    assert(cat(u) =~= mark(s, pos(ls, k), pos(ls, k + 1)));
    mark_twins(s, pos(ls, k), pos(ls, k + 1));
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).idx != (#[trigger] u[j]).idx by { assert(ls[i].idx != ls[j].idx); }
    lf_update(ls, k, l);
    assert(fr_of(l) == fr_of(ls[k]));
    assert forall|id: u64, w: Fr| #![trigger has_part(ri.of(id), w)] #![trigger lf_has(u, id, w)] has_part(ri.of(id), w) <==> lf_has(u, id, w) by {
        assert(has_part(ri.of(id), w) <==> lf_has(ls, id, w));
        if w == fr_of(l) && id == l.v.text.inserted_by { assert(lf_at(ls, id, w, k)); }
    }
    assert forall|e: int| 0 <= e < u.len() && (#[trigger] u[e]).v.n() == 0 implies {
        &&& e == u.len() - 1
        &&& u[e].v.lamport_ts == 0
        &&& !u[e].v.is_deleted
        &&& forall|j: int| 0 <= j < e ==> (#[trigger] u[j]).v.lamport_ts > 0
    } by {
        assert(e != k);
        assert(ls[e].v.n() == 0);
        assert forall|j: int| 0 <= j < e implies (#[trigger] u[j]).v.lamport_ts > 0 by { assert(ls[j].v.lamport_ts > 0); }
    }
}
pub proof fn gone_pos(ls: Ls, i: int, j: int, k: int)
    requires 0 <= k <= ls.len(),
    ensures pos(gone_all(ls, i, j), k) == pos(ls, k),
    decreases k,
{
    if k > 0 { gone_pos(ls, i, j, k - 1); }
}
pub proof fn gone_leaves(ls: Ls, ri: RunIndices, i: int, j: int)
    requires doc_ok(ls, ri), 0 <= i <= j <= ls.len(), forall|x: int| i <= x < j ==> (#[trigger] ls[x]).v.n() > 0,
    ensures
        doc_ok(gone_all(ls, i, j), ri),
        cat(gone_all(ls, i, j)) == mark(cat(ls), pos(ls, i), pos(ls, j)),
    decreases j,
{
    if i == j {
        assert(gone_all(ls, i, j) =~= ls);
        assert(mark(cat(ls), pos(ls, i), pos(ls, j)) =~= cat(ls));
    } else {
        let u = gone_all(ls, i, j - 1);
        gone_leaves(ls, ri, i, j - 1);
        gone_pos(ls, i, j - 1, j);
        gone_pos(ls, i, j - 1, j - 1);
        assert(ls[j - 1].v.n() > 0);
        gone_leaf(u, ri, j - 1);
        assert(u.update(j - 1, gone(u[j - 1])) =~= gone_all(ls, i, j));
        pos_le(ls, i, j - 1);
        pos_le(ls, j - 1, j);
        assert(mark(mark(cat(ls), pos(ls, i), pos(ls, j - 1)), pos(ls, j - 1), pos(ls, j)) =~= mark(cat(ls), pos(ls, i), pos(ls, j)));
    }
}
/// A leaf in two.
pub proof fn split_doc(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, a: Lf<EditRun>, b: Lf<EditRun>, o: int)
    requires
        doc_ok(ls, ri), 0 <= k < ls.len(), 0 < o < ls[k].v.n(), a.idx == ls[k].idx, fresh(ls, b.idx),
        a.v.part(&ls[k].v, 0, o), a.v.is_deleted == ls[k].v.is_deleted,
        b.v.part(&ls[k].v, o, ls[k].v.n()), b.v.is_deleted == ls[k].v.is_deleted,
        forall|i: u64| i != a.v.text.inserted_by ==> #[trigger] ri2.of(i) == ri.of(i),
        table_ok(ri2.of(a.v.text.inserted_by)),
        shape_same(ri.of(a.v.text.inserted_by), ri2.of(a.v.text.inserted_by)),
        parts_become(ri.of(a.v.text.inserted_by), ri2.of(a.v.text.inserted_by), fr_of(ls[k]), fr_of(a), fr_of(b)),
    ensures
        doc_ok(ls.update(k, a).insert(k + 1, b), ri2),
        cat(ls.update(k, a).insert(k + 1, b)) == cat(ls),
        pos(ls.update(k, a).insert(k + 1, b), k) == pos(ls, k),
        pos(ls.update(k, a).insert(k + 1, b), k + 1) == pos(ls, k) + o,
        pos(ls.update(k, a).insert(k + 1, b), k + 2) == pos(ls, k + 1),
        same_size(ri, ri2),
{
    let u = ls.update(k, a);
    let m = u.insert(k + 1, b);
    cat_split(ls, k, a, b, o);
    tables_split(ls, ri, ri2, k, k + 1, a, b);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).idx != (#[trigger] u[j]).idx by { assert(ls[i].idx != ls[j].idx); }
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).idx != b.idx by { assert(u[i].idx == ls[i].idx); }
    distinct_insert(u, k + 1, b);
    pos_same(m, ls, k);
    assert(m[k + 1] == b && m[k] == a);
    assert(pos(m, k + 2) == pos(m, k + 1) + b.v.n());
    assert forall|e: int| 0 <= e < m.len() && (#[trigger] m[e]).v.n() == 0 implies {
        &&& e == m.len() - 1
        &&& m[e].v.lamport_ts == 0
        &&& !m[e].v.is_deleted
        &&& forall|j: int| 0 <= j < e ==> (#[trigger] m[j]).v.lamport_ts > 0
    } by {
        assert(e != k && e != k + 1);
        if e < k { assert(m[e] == ls[e]); assert(e == ls.len() - 1); }
        else {
            assert(m[e] == ls[e - 1]);
            assert forall|j: int| 0 <= j < e implies (#[trigger] m[j]).v.lamport_ts > 0 by {
                if j < k { assert(m[j] == ls[j]); } else if j > k + 1 { assert(m[j] == ls[j - 1]); } else { assert(ls[k].v.lamport_ts > 0); }
            }
        }
    }
    assert forall|id: u64| (#[trigger] ri2.of(id)).len() == ri.of(id).len() by { if id != a.v.text.inserted_by { assert(ri2.of(id) == ri.of(id)); } }
}
/// Two leaves that become two others.
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn cat_two(ls: Ls, k: int, a: Lf<EditRun>, b: Lf<EditRun>)
    requires leaves_ok(ls), 0 <= k, k + 1 < ls.len(), a.v.wf(), b.v.wf(), a.v.text.inserted_by != 0, b.v.text.inserted_by != 0,
    ensures
        ({
            let m = ls.update(k, a).update(k + 1, b);
            &&& leaves_ok(m)
            &&& cat(m) == cat(ls).subrange(0, pos(ls, k)) + a.v.chars() + b.v.chars() + cat(ls).subrange(pos(ls, k + 2), cat(ls).len() as int)
            &&& pos(m, k) == pos(ls, k)
            &&& pos(m, k + 1) == pos(ls, k) + a.v.n()
            &&& pos(m, k + 2) == pos(ls, k) + a.v.n() + b.v.n()
            &&& 0 <= pos(ls, k) <= pos(ls, k + 1) <= pos(ls, k + 2) <= cat(ls).len()
        }),
{
    let u = ls.update(k, a);
    let m = u.update(k + 1, b);
    cat_leaf(ls, k);
    cat_leaf(ls, k + 1);
    cat_update(ls, k, a);
    cat_update(u, k + 1, b);
    cat_leaf(u, k);
    cat_leaf(u, k + 1);
    cat_cut(ls, k);
    cat_cut(u, k);
    let s = cat(ls);
    let x = s.subrange(0, pos(ls, k));
    let y = s.subrange(pos(ls, k + 1), s.len() as int);
    assert(ls[k + 1].v.wf());
    assert(u[k + 1] == ls[k + 1]);
    assert(cat(u) == x + a.v.chars() + y);
    assert(cat(u).subrange(0, pos(u, k + 1)) =~= x + a.v.chars());
    assert(cat(u).subrange(pos(u, k + 2), cat(u).len() as int) =~= s.subrange(pos(ls, k + 2), s.len() as int));
    pos_same(m, ls, k);
    assert(m[k] == a && m[k + 1] == b);
    assert(pos(m, k + 1) == pos(m, k) + a.v.n());
    assert(pos(m, k + 2) == pos(m, k + 1) + b.v.n());
}
pub proof fn tables_two(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, a: Lf<EditRun>, b: Lf<EditRun>, id: u64)
    requires
        leaves_ok(ls), distinct(ls), tables_ok(ls, ri), 0 <= k, k + 1 < ls.len(), a.idx == ls[k].idx, b.idx == ls[k + 1].idx,
        ls[k].v.text.inserted_by == id, ls[k + 1].v.text.inserted_by == id, a.v.text.inserted_by == id, b.v.text.inserted_by == id,
        forall|i: u64| i != id ==> #[trigger] ri2.of(i) == ri.of(i),
        table_ok(ri2.of(id)),
        shape_same(ri.of(id), ri2.of(id)),
        two_become(ri.of(id), ri2.of(id), fr_of(ls[k]), fr_of(ls[k + 1]), fr_of(a), fr_of(b))
            || two_become(ri.of(id), ri2.of(id), fr_of(ls[k + 1]), fr_of(ls[k]), fr_of(b), fr_of(a)),
        forall|i: u64| #[trigger] count(cat(ls.update(k, a).update(k + 1, b)), i) == count(cat(ls), i),
    ensures tables_ok(ls.update(k, a).update(k + 1, b), ri2),
{
    let u = ls.update(k, a);
    let m = u.update(k + 1, b);
    lf_update(ls, k, a);
    assert(ls[k].idx != ls[k + 1].idx);
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).idx != (#[trigger] u[j]).idx by { assert(ls[i].idx != ls[j].idx); }
    lf_update(u, k + 1, b);
    assert(u[k + 1] == ls[k + 1]);
    assert forall|i: u64, w: Fr| #![trigger has_part(ri2.of(i), w)] #![trigger lf_has(m, i, w)] has_part(ri2.of(i), w) <==> lf_has(m, i, w) by {
        assert(has_part(ri.of(i), w) <==> lf_has(ls, i, w));
        assert(lf_has(u, i, w) <==> (lf_has(ls, i, w) && !(i == id && w == fr_of(ls[k]))) || (i == id && w == fr_of(a)));
        if i != id { assert(ri2.of(i) == ri.of(i)); }
    }
    assert forall|i: u64| sum(#[trigger] ri2.of(i)) == count(cat(m), i) by {
        assert(sum(ri.of(i)) == count(cat(ls), i));
        if i != id { assert(ri2.of(i) == ri.of(i)); }
    }
    assert forall|i: u64| table_ok(#[trigger] ri2.of(i)) by {
        if i != id { assert(ri2.of(i) == ri.of(i)); assert(table_ok(ri.of(i))); }
    }
}
/// The border between two leaves moves, what's between is deleted: [from, to)
/// of the document goes from one that's visible to one that's not.
pub proof fn border(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, a: Lf<EditRun>, b: Lf<EditRun>, from: int, to: int)
    requires
        doc_ok(ls, ri), 0 <= k, k + 1 < ls.len(), a.idx == ls[k].idx, b.idx == ls[k + 1].idx,
        ls[k].v.kin(&ls[k + 1].v), a.v.kin(&ls[k].v), b.v.kin(&ls[k].v),
        ls[k].v.text.range.end == ls[k + 1].v.text.range.start,
        a.v.text.range.end == b.v.text.range.start,
        a.v.text.range.start == ls[k].v.text.range.start,
        b.v.text.range.end == ls[k + 1].v.text.range.end,
        a.v.is_deleted == ls[k].v.is_deleted, b.v.is_deleted == ls[k + 1].v.is_deleted,
        a.v.is_deleted != b.v.is_deleted,
        a.v.n() > 0, b.v.n() > 0, ls[k].v.n() > 0, ls[k + 1].v.n() > 0,
        b.v.is_deleted ==> a.v.n() < ls[k].v.n() && from == pos(ls, k) + a.v.n() && to == pos(ls, k + 1),
        a.v.is_deleted ==> a.v.n() > ls[k].v.n() && from == pos(ls, k + 1) && to == pos(ls, k) + a.v.n(),
        forall|i: u64| i != a.v.text.inserted_by ==> #[trigger] ri2.of(i) == ri.of(i),
        table_ok(ri2.of(a.v.text.inserted_by)),
        shape_same(ri.of(a.v.text.inserted_by), ri2.of(a.v.text.inserted_by)),
        ({
            let id = a.v.text.inserted_by;
            two_become(ri.of(id), ri2.of(id), fr_of(ls[k]), fr_of(ls[k + 1]), fr_of(a), fr_of(b))
                || two_become(ri.of(id), ri2.of(id), fr_of(ls[k + 1]), fr_of(ls[k]), fr_of(b), fr_of(a))
        }),
    ensures
        doc_ok(ls.update(k, a).update(k + 1, b), ri2),
        cat(ls.update(k, a).update(k + 1, b)) == mark(cat(ls), from, to),
        pos(ls.update(k, a).update(k + 1, b), k) == pos(ls, k),
        pos(ls.update(k, a).update(k + 1, b), k + 1) == pos(ls, k) + a.v.n(),
        pos(ls.update(k, a).update(k + 1, b), k + 2) == pos(ls, k + 2),
        same_size(ri, ri2),
{
    let m = ls.update(k, a).update(k + 1, b);
    let s = cat(ls);
    let id = a.v.text.inserted_by;
    cat_leaf(ls, k);
    cat_leaf(ls, k + 1);
    cat_cut(ls, k);
    assert(ls[k].v.wf() && ls[k + 1].v.wf() && ls[k].v.text.inserted_by != 0);
    cat_two(ls, k, a, b);
    let t = mark(s, from, to);
    let p0 = pos(ls, k);
    let p2 = pos(ls, k + 2);
    let ab = a.v.chars() + b.v.chars();
    let mid = ls[k].v.chars() + ls[k + 1].v.chars();
    assert(a.v.n() + b.v.n() == p2 - p0);
    assert forall|i: int| p0 <= i < p2 implies #[trigger] t[i] == ab[i - p0] by {
        if i < pos(ls, k + 1) { assert(s[i].off == ls[k].v.text.range.start + i - p0); }
        else { assert(s[i].off == ls[k + 1].v.text.range.start + i - pos(ls, k + 1)); }
    }
    assert(cat(m) =~= t) by {
        assert(cat(m) == s.subrange(0, p0) + a.v.chars() + b.v.chars() + s.subrange(p2, s.len() as int));
        assert(cat(m).len() == s.len());
        assert forall|i: int| 0 <= i < s.len() implies cat(m)[i] == t[i] by {
            if p0 <= i < p2 { assert(cat(m)[i] == ab[i - p0]); }
        }
    }
    mark_twins(s, from, to);
    tables_two(ls, ri, ri2, k, a, b, id);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).idx != (#[trigger] m[j]).idx by { assert(ls[i].idx != ls[j].idx); }
    assert forall|e: int| 0 <= e < m.len() && (#[trigger] m[e]).v.n() == 0 implies {
        &&& e == m.len() - 1
        &&& m[e].v.lamport_ts == 0
        &&& !m[e].v.is_deleted
        &&& forall|j: int| 0 <= j < e ==> (#[trigger] m[j]).v.lamport_ts > 0
    } by {
        assert(e != k && e != k + 1);
        assert(ls[e].v.n() == 0);
        assert forall|j: int| 0 <= j < e implies (#[trigger] m[j]).v.lamport_ts > 0 by { assert(ls[j].v.lamport_ts > 0); }
    }
    assert forall|i: u64| (#[trigger] ri2.of(i)).len() == ri.of(i).len() by { if i != id { assert(ri2.of(i) == ri.of(i)); } }
}
/// A leaf in two, at a new leaf; or not.
pub open spec fn cut(ls: Ls, k: int, o: int, x: Option<LeafIdx<EditRun>>) -> Ls {
    match x {
        Some(i) => ls.update(k, lf(ls[k].idx, part_of(ls[k].v, 0, o))).insert(k + 1, lf(i, part_of(ls[k].v, o, ls[k].v.n()))),
        None => ls,
    }
}
pub open spec fn by1(x: Option<LeafIdx<EditRun>>) -> int { if x is Some { 1 } else { 0 } }
pub open spec fn cut_tables(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, o: int, x: Option<LeafIdx<EditRun>>) -> bool {
    let id = ls[k].v.text.inserted_by;
    let w = fr_of(ls[k]);
    if x is Some {
        &&& forall|i: u64| i != id ==> #[trigger] ri2.of(i) == ri.of(i)
        &&& table_ok(ri2.of(id))
        &&& shape_same(ri.of(id), ri2.of(id))
        &&& parts_become(ri.of(id), ri2.of(id), w, Fr { len: o, ..w }, Fr { start: w.start + o, len: w.len - o, idx: x->Some_0, ..w })
    } else {
        forall|i: u64| #[trigger] ri2.of(i) == ri.of(i)
    }
}
pub proof fn tables_same(ls: Ls, ri: RunIndices, ri2: RunIndices)
    requires tables_ok(ls, ri), forall|i: u64| #[trigger] ri2.of(i) == ri.of(i),
    ensures tables_ok(ls, ri2),
{
    assert forall|id: u64, w: Fr| #![trigger has_part(ri2.of(id), w)] #![trigger lf_has(ls, id, w)] has_part(ri2.of(id), w) <==> lf_has(ls, id, w) by {
        assert(ri2.of(id) == ri.of(id));
    }
    assert forall|id: u64| sum(#[trigger] ri2.of(id)) == count(cat(ls), id) by { assert(ri2.of(id) == ri.of(id)); }
    assert forall|id: u64| table_ok(#[trigger] ri2.of(id)) by { assert(ri2.of(id) == ri.of(id)); assert(table_ok(ri.of(id))); }
}
pub proof fn pos_shift(ls: Ls, k: int, a: Lf<EditRun>, b: Lf<EditRun>, j: int)
    requires 0 <= k < j <= ls.len(), a.v.n() + b.v.n() == ls[k].v.n(),
    ensures pos(ls.update(k, a).insert(k + 1, b), j + 1) == pos(ls, j),
    decreases j,
{
    let m = ls.update(k, a).insert(k + 1, b);
    if j == k + 1 {
        pos_same(m, ls, k);
        assert(m[k] == a && m[k + 1] == b);
        assert(pos(m, k + 2) == pos(m, k + 1) + b.v.n());
        assert(pos(m, k + 1) == pos(m, k) + a.v.n());
    } else {
        pos_shift(ls, k, a, b, j - 1);
        assert(m[j] == ls[j - 1]);
    }
}
pub proof fn cut_doc(ls: Ls, ri: RunIndices, ri2: RunIndices, k: int, o: int, x: Option<LeafIdx<EditRun>>, j: int)
    requires
        doc_ok(ls, ri), 0 <= k < ls.len(), k < j <= ls.len(),
        x is Some ==> 0 < o < ls[k].v.n() && fresh(ls, x->Some_0),
        cut_tables(ls, ri, ri2, k, o, x),
    ensures
        doc_ok(cut(ls, k, o, x), ri2),
        cat(cut(ls, k, o, x)) == cat(ls),
        same_size(ri, ri2),
        pos(cut(ls, k, o, x), k) == pos(ls, k),
        x is Some ==> pos(cut(ls, k, o, x), k + 1) == pos(ls, k) + o,
        pos(cut(ls, k, o, x), j + by1(x)) == pos(ls, j),
{
    if x is Some {
        assert(ls[k].v.wf());
        let a = lf(ls[k].idx, part_of(ls[k].v, 0, o));
        let b = lf(x->Some_0, part_of(ls[k].v, o, ls[k].v.n()));
        split_doc(ls, ri, ri2, k, a, b, o);
        pos_shift(ls, k, a, b, j);
    } else {
        tables_same(ls, ri, ri2);
    }
}
/// Leaves deleted, of the first what's from `o1` on, of the last what's up to `o2`.
pub open spec fn across(ls: Ls, k1: int, o1: int, x1: Option<LeafIdx<EditRun>>, k2: int, o2: int, x2: Option<LeafIdx<EditRun>>) -> Ls {
    let m = cut(cut(ls, k1, o1, x1), k2 + by1(x1), o2, x2);
    gone_all(m, k1 + by1(x1), k2 + by1(x1) + 1)
}
pub proof fn erase_across(ls: Ls, ri: RunIndices, rm: RunIndices, ri2: RunIndices, k1: int, o1: int, x1: Option<LeafIdx<EditRun>>, k2: int, o2: int, x2: Option<LeafIdx<EditRun>>)
    requires
        doc_ok(ls, ri), 0 <= k1 < k2 < ls.len(),
        0 <= o1 < ls[k1].v.n(), 0 < o2 <= ls[k2].v.n(),
        x1 is Some <==> 0 < o1,
        x2 is Some <==> o2 < ls[k2].v.n(),
        x1 is Some ==> fresh(ls, x1->Some_0),
        x2 is Some ==> fresh(ls, x2->Some_0),
        x1 is Some && x2 is Some ==> x1->Some_0 != x2->Some_0,
        cut_tables(ls, ri, rm, k1, o1, x1),
        cut_tables(cut(ls, k1, o1, x1), rm, ri2, k2 + by1(x1), o2, x2),
    ensures
        doc_ok(across(ls, k1, o1, x1, k2, o2, x2), ri2),
        cat(across(ls, k1, o1, x1, k2, o2, x2)) == mark(cat(ls), pos(ls, k1) + o1, pos(ls, k2) + o2),
        same_size(ri, ri2),
{
    let d = by1(x1);
    let m1 = cut(ls, k1, o1, x1);
    cut_doc(ls, ri, rm, k1, o1, x1, k2);
    assert(m1[k2 + d] == ls[k2]);
    if x2 is Some {
        assert forall|i: int| 0 <= i < m1.len() implies (#[trigger] m1[i]).idx != x2->Some_0 by {
            if i <= k1 { assert(m1[i].idx == ls[i].idx); } else if d == 0 { assert(m1[i] == ls[i]); } else if i > k1 + 1 { assert(m1[i] == ls[i - 1]); }
        }
    }
    let m2 = cut(m1, k2 + d, o2, x2);
    cut_doc(m1, rm, ri2, k2 + d, o2, x2, k2 + d + 1);
    pos_same(m2, m1, k1 + d);
    assert(pos(m1, k2 + d + 1) == pos(m1, k2 + d) + m1[k2 + d].v.n());
    assert forall|i: int| k1 + d <= i < k2 + d + 1 implies (#[trigger] m2[i]).v.n() > 0 by {
        if m2[i].v.n() == 0 { assert(i == m2.len() - 1); assert(m2[k2 + d].v.n() > 0); }
    }
    gone_leaves(m2, ri2, k1 + d, k2 + d + 1);
    assert forall|id: u64| (#[trigger] ri2.of(id)).len() == ri.of(id).len() by { assert(rm.of(id).len() == ri.of(id).len()); }
}
