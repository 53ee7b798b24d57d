// Facts about the leaves of a document.
%use leaves.vx
%use doclemmas.vx
%raw
pub proof fn cat_step(ls: Ls, k: int)
    requires 0 <= k < ls.len(),
    ensures cat(ls.subrange(0, k + 1)) == cat(ls.subrange(0, k)) + ls[k].v.chars(),
{
    reveal(cat);
    assert(ls.subrange(0, k + 1).drop_last() =~= ls.subrange(0, k));
}
pub proof fn cat_add(a: Ls, b: Ls)
    ensures cat(a + b) == cat(a) + cat(b),
    decreases b.len(),
{
    reveal(cat);
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(cat(a) + cat(b) =~= cat(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        cat_add(a, b.drop_last());
        assert(cat(a) + (cat(b.drop_last()) + b.last().v.chars()) =~= (cat(a) + cat(b.drop_last())) + b.last().v.chars());
    }
}
pub proof fn cat_one(l: Lf<EditRun>)
    ensures cat(seq![l]) == l.v.chars(),
{
    reveal(cat);
    assert(seq![l].drop_last() =~= Seq::<Lf<EditRun>>::empty());
    assert(cat(seq![l].drop_last()) =~= Seq::<Ch>::empty());
    assert(cat(seq![l]) =~= l.v.chars());
}
pub proof fn pos_le(ls: Ls, i: int, j: int)
    requires leaves_ok(ls), 0 <= i <= j <= ls.len(),
    ensures 0 <= pos(ls, i) <= pos(ls, j),
    decreases j,
{
    if i < j { pos_le(ls, i, j - 1); } else if i > 0 { pos_le(ls, i - 1, j - 1); }
}
pub proof fn vsum_le(ls: Ls, i: int, j: int)
    requires leaves_ok(ls), 0 <= i <= j <= ls.len(),
    ensures 0 <= vsum(ls, i) <= vsum(ls, j),
    decreases j,
{
    if i < j { vsum_le(ls, i, j - 1); } else if i > 0 { vsum_le(ls, i - 1, j - 1); }
}
pub proof fn pos_same(a: Ls, b: Ls, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).v == b[i].v,
    ensures pos(a, k) == pos(b, k), vsum(a, k) == vsum(b, k),
    decreases k,
{
    if k > 0 { pos_same(a, b, k - 1); assert(a[k - 1].v == b[k - 1].v); }
}
/// What the first k leaves are.
pub proof fn cat_take(ls: Ls, k: int)
    requires leaves_ok(ls), 0 <= k <= ls.len(),
    ensures
        cat(ls.subrange(0, k)).len() == pos(ls, k),
        vis(cat(ls.subrange(0, k))) == vsum(ls, k),
    decreases k,
{
    if k == 0 {
        reveal(cat);
        reveal(vis);
    } else {
        cat_take(ls, k - 1);
        cat_step(ls, k - 1);
        let v = ls[k - 1].v;
        vis_add(cat(ls.subrange(0, k - 1)), v.chars());
        vis_block(v.text.inserted_by, v.text.range.start as int, v.text.range.end as int, v.run_ts, v.lamport_ts, v.is_deleted);
    }
}
/// The document, cut before the k-th leaf.
pub proof fn cat_cut(ls: Ls, k: int)
    requires leaves_ok(ls), 0 <= k <= ls.len(),
    ensures
        cat(ls) == cat(ls.subrange(0, k)) + cat(ls.subrange(k, ls.len() as int)),
        cat(ls).subrange(0, pos(ls, k)) == cat(ls.subrange(0, k)),
        cat(ls).subrange(pos(ls, k), cat(ls).len() as int) == cat(ls.subrange(k, ls.len() as int)),
        cat(ls).len() == pos(ls, ls.len() as int),
        vis(cat(ls)) == vsum(ls, ls.len() as int),
        vis(cat(ls).subrange(0, pos(ls, k))) == vsum(ls, k),
        0 <= pos(ls, k) <= cat(ls).len(),
{
    cat_add(ls.subrange(0, k), ls.subrange(k, ls.len() as int));
    assert(ls.subrange(0, k) + ls.subrange(k, ls.len() as int) =~= ls);
    cat_take(ls, k);
    cat_take(ls, ls.len() as int);
    assert(ls.subrange(0, ls.len() as int) =~= ls);
    pos_le(ls, 0, k);
    pos_le(ls, k, ls.len() as int);
    assert(cat(ls).subrange(0, pos(ls, k)) =~= cat(ls.subrange(0, k)));
    assert(cat(ls).subrange(pos(ls, k), cat(ls).len() as int) =~= cat(ls.subrange(k, ls.len() as int)));
}
/// The characters of the k-th leaf.
pub proof fn cat_leaf(ls: Ls, k: int)
    requires leaves_ok(ls), 0 <= k < ls.len(),
    ensures
        0 <= pos(ls, k) <= pos(ls, k + 1) <= cat(ls).len(),
        pos(ls, k + 1) == pos(ls, k) + ls[k].v.n(),
        cat(ls).subrange(pos(ls, k), pos(ls, k + 1)) == ls[k].v.chars(),
        forall|i: int| pos(ls, k) <= i < pos(ls, k + 1) ==> #[trigger] cat(ls)[i] == (Ch {
            id: ls[k].v.text.inserted_by, off: ls[k].v.text.range.start + i - pos(ls, k), run: ls[k].v.run_ts,
            lam: ls[k].v.lamport_ts, del: ls[k].v.is_deleted }),
{
    cat_cut(ls, k + 1);
    cat_cut(ls, k);
    cat_step(ls, k);
    let s = cat(ls);
    let t = s.subrange(0, pos(ls, k + 1));
    assert(ls[k].v.wf());
    assert forall|i: int| pos(ls, k) <= i < pos(ls, k + 1) implies #[trigger] s[i] == ls[k].v.chars()[i - pos(ls, k)] by {
        assert(s[i] == t[i]);
    }
    assert(s.subrange(pos(ls, k), pos(ls, k + 1)) =~= ls[k].v.chars());
}
/// The leaf a character is in.
pub proof fn leaf_of(ls: Ls, i: int) -> (k: int)
    requires leaves_ok(ls), 0 <= i < cat(ls).len(),
    ensures 0 <= k < ls.len(), pos(ls, k) <= i < pos(ls, k + 1),
{
    cat_cut(ls, 0);
    leaf_below(ls, i, ls.len() as int)
}
pub proof fn leaf_below(ls: Ls, i: int, j: int) -> (k: int)
    requires leaves_ok(ls), 0 <= i < pos(ls, j), 0 <= j <= ls.len(),
    ensures 0 <= k < j, pos(ls, k) <= i < pos(ls, k + 1),
    decreases j,
{
    if pos(ls, j - 1) <= i { j - 1 } else { leaf_below(ls, i, j - 1) }
}
pub proof fn leaf_one(ls: Ls, i: int, k: int, l: int)
    requires leaves_ok(ls), 0 <= k < ls.len(), 0 <= l < ls.len(), pos(ls, k) <= i < pos(ls, k + 1), pos(ls, l) <= i < pos(ls, l + 1),
    ensures k == l,
{
    if k < l { pos_le(ls, k + 1, l); }
    if l < k { pos_le(ls, l + 1, k); }
}
pub proof fn cat_insert(ls: Ls, k: int, l: Lf<EditRun>)
    requires leaves_ok(ls), 0 <= k <= ls.len(), l.v.wf(), l.v.text.inserted_by != 0,
    ensures
        leaves_ok(ls.insert(k, l)),
        cat(ls.insert(k, l)) == splice(cat(ls), pos(ls, k), l.v.chars()),
        forall|id: u64| #[trigger] count(cat(ls.insert(k, l)), id) == count(cat(ls), id) + if id == l.v.text.inserted_by { l.v.n() } else { 0 },
        cat(ls.insert(k, l)).len() == cat(ls).len() + l.v.n(),
        pos(ls.insert(k, l), k) == pos(ls, k),
        vsum(ls.insert(k, l), k) == vsum(ls, k),
{
    let a = ls.subrange(0, k);
    let b = ls.subrange(k, ls.len() as int);
    let m = ls.insert(k, l);
    assert(m =~= (a + seq![l]) + b);
    cat_add(a + seq![l], b);
    cat_add(a, seq![l]);
    cat_one(l);
    cat_cut(ls, k);
    pos_same(m, ls, k);
    let v = l.v;
    assert forall|id: u64| #[trigger] count(cat(m), id) == count(cat(ls), id) + if id == v.text.inserted_by { v.n() } else { 0 } by {
        count_splice(cat(ls), pos(ls, k), v.chars(), id);
        count_block(v.text.inserted_by, v.text.range.start as int, v.text.range.end as int, v.run_ts, v.lamport_ts, v.is_deleted, id);
    }
}
pub proof fn cat_update(ls: Ls, k: int, l: Lf<EditRun>)
    requires leaves_ok(ls), 0 <= k < ls.len(), l.v.wf(), l.v.text.inserted_by != 0,
    ensures
        leaves_ok(ls.update(k, l)),
        cat(ls.update(k, l)) == cat(ls).subrange(0, pos(ls, k)) + l.v.chars() + cat(ls).subrange(pos(ls, k + 1), cat(ls).len() as int),
        0 <= pos(ls, k) <= pos(ls, k + 1) <= cat(ls).len(),
        pos(ls, k + 1) == pos(ls, k) + ls[k].v.n(),
        pos(ls.update(k, l), k) == pos(ls, k),
        vsum(ls.update(k, l), k) == vsum(ls, k),
{
    let a = ls.subrange(0, k);
    let b = ls.subrange(k + 1, ls.len() as int);
    let m = ls.update(k, l);
    assert(m =~= (a + seq![l]) + b);
    cat_add(a + seq![l], b);
    cat_add(a, seq![l]);
    cat_one(l);
    cat_cut(ls, k);
    cat_cut(ls, k + 1);
    pos_same(m, ls, k);
}

pub proof fn lf_insert(ls: Ls, k: int, l: Lf<EditRun>)
    requires 0 <= k <= ls.len(),
    ensures
        forall|id: u64, w: Fr| #[trigger] lf_has(ls.insert(k, l), id, w) <==> lf_has(ls, id, w) || (id == l.v.text.inserted_by && w == fr_of(l)),
{
    let m = ls.insert(k, l);
    assert forall|id: u64, w: Fr| #[trigger] lf_has(m, id, w) <==> lf_has(ls, id, w) || (id == l.v.text.inserted_by && w == fr_of(l)) by {
        if lf_has(m, id, w) {
            let j = choose|j: int| #[trigger] lf_at(m, id, w, j);
            if j < k { assert(lf_at(ls, id, w, j)); }
            if j > k { assert(m[j] == ls[j - 1]); assert(lf_at(ls, id, w, j - 1)); }
        }
        if lf_has(ls, id, w) {
            let j = choose|j: int| #[trigger] lf_at(ls, id, w, j);
            if j < k { assert(lf_at(m, id, w, j)); } else { assert(m[j + 1] == ls[j]); assert(lf_at(m, id, w, j + 1)); }
        }
        if id == l.v.text.inserted_by && w == fr_of(l) { assert(lf_at(m, id, w, k)); }
    }
}
pub proof fn lf_update(ls: Ls, k: int, l: Lf<EditRun>)
    requires 0 <= k < ls.len(), distinct(ls), l.idx == ls[k].idx, l.v.text.inserted_by == ls[k].v.text.inserted_by,
    ensures
        forall|id: u64, w: Fr| #[trigger] lf_has(ls.update(k, l), id, w) <==>
            (lf_has(ls, id, w) && !(id == l.v.text.inserted_by && w == fr_of(ls[k]))) || (id == l.v.text.inserted_by && w == fr_of(l)),
{
    let m = ls.update(k, l);
    assert forall|id: u64, w: Fr| #[trigger] lf_has(m, id, w) <==>
            (lf_has(ls, id, w) && !(id == l.v.text.inserted_by && w == fr_of(ls[k]))) || (id == l.v.text.inserted_by && w == fr_of(l)) by {
        if lf_has(m, id, w) {
            let j = choose|j: int| #[trigger] lf_at(m, id, w, j);
            if j != k {
                assert(lf_at(ls, id, w, j));
                if w == fr_of(ls[k]) { assert(ls[j].idx == ls[k].idx); if j < k { assert(ls[j].idx != ls[k].idx); } else { assert(ls[k].idx != ls[j].idx); } }
            }
        }
        if lf_has(ls, id, w) && !(id == l.v.text.inserted_by && w == fr_of(ls[k])) {
            let j = choose|j: int| #[trigger] lf_at(ls, id, w, j);
            assert(lf_at(m, id, w, j));
        }
        if id == l.v.text.inserted_by && w == fr_of(l) { assert(lf_at(m, id, w, k)); }
    }
}
pub proof fn distinct_insert(ls: Ls, k: int, l: Lf<EditRun>)
    requires distinct(ls), fresh(ls, l.idx), 0 <= k <= ls.len(),
    ensures distinct(ls.insert(k, l)),
{
    let m = ls.insert(k, l);
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).idx != (#[trigger] m[j]).idx by {
        if i < k { assert(m[i] == ls[i]); } else if i > k { assert(m[i] == ls[i - 1]); }
        if j < k { assert(m[j] == ls[j]); } else if j > k { assert(m[j] == ls[j - 1]); }
    }
}
/// A part lies in its run.
pub proof fn part_in(v: Table, w: Fr)
    requires table_ok(v), has_part(v, w),
    ensures 0 <= w.run < v.len(), 0 <= base(v, w.run) <= w.start, w.start + w.len <= base(v, w.run + 1), 0 <= w.len,
        base(v, w.run + 1) <= sum(v), total(v[w.run].0@) >= w.len,
{
    let j = choose|j: int| #[trigger] part_is(v, w, j);
    let f = v[w.run].0@;
    v[w.run].0.facts();
    cum_le(f, 0, j);
    cum_le(f, j + 1, f.len() as int);
    base_le(v, 0, w.run);
    base_le(v, w.run + 1, v.len() as int);
}
/// The k-th leaf is where its run's table says.
pub proof fn leaf_part(ls: Ls, ri: RunIndices, k: int)
    requires tables_ok(ls, ri), 0 <= k < ls.len(),
    ensures
        has_part(ri.of(ls[k].v.text.inserted_by), fr_of(ls[k])),
        0 <= ls[k].v.run_ts < ri.of(ls[k].v.text.inserted_by).len(),
        base(ri.of(ls[k].v.text.inserted_by), ls[k].v.run_ts as int) <= ls[k].v.text.range.start,
        ls[k].v.text.range.end <= base(ri.of(ls[k].v.text.inserted_by), ls[k].v.run_ts + 1),
        ls[k].v.text.range.end <= sum(ri.of(ls[k].v.text.inserted_by)),
{
    let id = ls[k].v.text.inserted_by;
    let w = fr_of(ls[k]);
    assert(lf_at(ls, id, w, k));
    assert(lf_has(ls, id, w));
    assert(table_ok(ri.of(id)));
    part_in(ri.of(id), w);
}
/// What's visible of a document up to a place in a leaf.
pub proof fn leaf_vis(ls: Ls, k: int, o: int)
    requires leaves_ok(ls), 0 <= k < ls.len(), 0 <= o <= ls[k].v.n(),
    ensures
        0 <= pos(ls, k) + o <= cat(ls).len(),
        vis(cat(ls).subrange(0, pos(ls, k) + o)) == vsum(ls, k) + if ls[k].v.is_deleted { 0 } else { o },
        !ls[k].v.is_deleted && o > 0 ==> after_vis(cat(ls), vsum(ls, k) + o) == pos(ls, k) + o,
    decreases o,
{
    cat_leaf(ls, k);
    cat_cut(ls, k);
    let s = cat(ls);
    if o > 0 {
        leaf_vis(ls, k, o - 1);
        vis_step(s, pos(ls, k) + o - 1);
        if !ls[k].v.is_deleted { after_vis_only(s, vsum(ls, k) + o, pos(ls, k) + o); }
    }
}
/// The leaf that has a character.
pub proof fn char_leaf(ls: Ls, id: u64, off: int, k: int)
    requires leaves_ok(ls), gap_free(cat(ls)), 0 <= k < ls.len(), ls[k].v.text.inserted_by == id, ls[k].v.text.range.start <= off < ls[k].v.text.range.end,
    ensures
        at(cat(ls), id, off) == pos(ls, k) + off - ls[k].v.text.range.start,
        pos(ls, k) <= at(cat(ls), id, off) < pos(ls, k + 1) <= cat(ls).len(),
        cat(ls)[at(cat(ls), id, off)] == (Ch { id, off, run: ls[k].v.run_ts, lam: ls[k].v.lamport_ts, del: ls[k].v.is_deleted }),
{
    cat_leaf(ls, k);
    at_only(cat(ls), pos(ls, k) + off - ls[k].v.text.range.start);
}
/// ...of which the table knows.
pub proof fn char_known(ls: Ls, ri: RunIndices, id: u64, off: int) -> (k: int)
    requires leaves_ok(ls), tables_ok(ls, ri), gap_free(cat(ls)), at(cat(ls), id, off) >= 0,
    ensures
        0 <= k < ls.len(), ls[k].v.text.inserted_by == id, ls[k].v.text.range.start <= off < ls[k].v.text.range.end,
        cat(ls)[at(cat(ls), id, off)].run == ls[k].v.run_ts,
        ls[k].v.run_ts < ri.of(id).len(),
        base(ri.of(id), ls[k].v.run_ts as int) <= off < base(ri.of(id), ls[k].v.run_ts + 1),
{
    let s = cat(ls);
    at_is(s, id, off);
    let i = at(s, id, off);
    let k = leaf_of(ls, i);
    cat_leaf(ls, k);
    leaf_part(ls, ri, k);
    k
}
