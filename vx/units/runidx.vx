// run_indices.rs: which leaf what a replica inserted is in.
%use fragments.vx
%use maps.vx
%file run_indices.rs
%item struct ReplicaIndices -Clone -PartialEq
%item struct RunIndices -Clone -PartialEq
%raw
/// A part of a run: where it starts among what its replica inserted.
pub ghost struct Fr { pub run: int, pub start: int, pub len: int, pub idx: LeafIdx<EditRun> }

pub type Table = Seq<(Fragments, usize)>;

/// The length of the first `t` runs.
pub open spec fn base(v: Table, t: int) -> int
    decreases t,
{
    if t <= 0 { 0 } else { base(v, t - 1) + total(v[t - 1].0@) }
}
pub open spec fn sum(v: Table) -> int { base(v, v.len() as int) }
pub open spec fn table_ok(v: Table) -> bool {
    &&& sum(v) <= usize::MAX
    &&& forall|t: int| 0 <= t < v.len() ==> (#[trigger] v[t]).0.wf() && v[t].1 == base(v, t)
}
pub open spec fn part_is(v: Table, w: Fr, j: int) -> bool {
    &&& 0 <= w.run < v.len()
    &&& 0 <= j < v[w.run].0@.len()
    &&& v[w.run].0@[j] == Fragment { len: w.len as usize, idx: w.idx }
    &&& 0 <= w.len <= usize::MAX
    &&& w.start == base(v, w.run) + cum(v[w.run].0@, j)
}
pub open spec fn has_part(v: Table, w: Fr) -> bool { exists|j: int| #[trigger] part_is(v, w, j) }

pub proof fn base_le(v: Table, i: int, j: int)
    requires table_ok(v), 0 <= i <= j <= v.len(),
    ensures 0 <= base(v, i) <= base(v, j),
    decreases j,
{
    if j > 0 {
        v[j - 1].0.facts();
        cum_le(v[j - 1].0@, 0, v[j - 1].0@.len() as int);
    }
    if i < j { base_le(v, i, j - 1); } else if i > 0 { base_le(v, i - 1, j - 1); }
}
pub proof fn base_same(v: Table, v2: Table, t: int)
    requires 0 <= t <= v.len(), t <= v2.len(), forall|i: int| 0 <= i < t ==> total((#[trigger] v[i]).0@) == total(v2[i].0@),
    ensures base(v, t) == base(v2, t),
    decreases t,
{
    if t > 0 { base_same(v, v2, t - 1); assert(total(v[t - 1].0@) == total(v2[t - 1].0@)); }
}
/// A run is put in other parts.
pub proof fn table_change(v: Table, v2: Table, t: int)
    requires
        table_ok(v), v2.len() == v.len(), 0 <= t < v.len(),
        forall|i: int| 0 <= i < v.len() && i != t ==> #[trigger] v2[i] == v[i],
        v2[t].0.wf(), v2[t].1 == v[t].1, total(v2[t].0@) == total(v[t].0@),
    ensures
        table_ok(v2), shape_same(v, v2),
        forall|i: int| 0 <= i <= v.len() ==> #[trigger] base(v2, i) == base(v, i),
{
    assert forall|i: int| 0 <= i <= v.len() implies #[trigger] base(v2, i) == base(v, i) by {
        assert forall|k: int| 0 <= k < i implies total((#[trigger] v[k]).0@) == total(v2[k].0@) by { if k != t { assert(v2[k] == v[k]); } }
        base_same(v, v2, i);
    }
    assert forall|k: int| 0 <= k < v2.len() implies (#[trigger] v2[k]).0.wf() && v2[k].1 == base(v2, k) by {
        assert(v[k].1 == base(v, k));
        if k != t { assert(v2[k] == v[k]); assert(v[k].0.wf()); }
    }
}
/// Where a part is, is the one place.
pub proof fn part_one(v: Table, w: Fr, i: int, j: int)
    requires table_ok(v), part_is(v, w, i), part_is(v, w, j),
    ensures i == j,
{
    v[w.run].0.facts();
    let f = v[w.run].0@;
    if i < j { cum_le(f, i + 1, j); assert(f[i].len > 0); }
    if j < i { cum_le(f, j + 1, i); assert(f[j].len > 0); }
}
/// `x` becomes `y` and `z`.
pub open spec fn parts_become(v: Table, v2: Table, x: Fr, y: Fr, z: Fr) -> bool {
    &&& forall|w: Fr| #[trigger] has_part(v2, w) <==> (has_part(v, w) && w != x) || w == y || w == z
    &&& has_part(v2, y)
    &&& has_part(v2, z)
}
/// `x1` and `x2` become `y1` and `y2`.
pub open spec fn two_become(v: Table, v2: Table, x1: Fr, x2: Fr, y1: Fr, y2: Fr) -> bool {
    forall|w: Fr| #[trigger] has_part(v2, w) <==> (has_part(v, w) && w != x1 && w != x2) || w == y1 || w == y2
}
pub proof fn split_parts(v: Table, v2: Table, x: Fr, j: int, at: int, idx: LeafIdx<EditRun>)
    requires
        table_ok(v), table_ok(v2), v2.len() == v.len(), part_is(v, x, j),
        x.start < at < x.start + x.len,
        forall|i: int| 0 <= i <= v.len() ==> #[trigger] base(v2, i) == base(v, i),
        forall|i: int| 0 <= i < v.len() && i != x.run ==> #[trigger] v2[i] == v[i],
        v2[x.run].0@ == split_at(v[x.run].0@, j, at - base(v, x.run), idx),
    ensures
        parts_become(v, v2, x, Fr { len: at - x.start, ..x }, Fr { start: at, len: x.start + x.len - at, idx, ..x }),
{
    let t = x.run;
    let f = v[t].0@;
    let g = v2[t].0@;
    let y = Fr { len: at - x.start, ..x };
    let z = Fr { start: at, len: x.start + x.len - at, idx, ..x };
    v[t].0.facts();
    split_cum(f, j, at - base(v, t), idx);
    assert(part_is(v2, y, j));
    assert(part_is(v2, z, j + 1));
    assert forall|w: Fr| #[trigger] has_part(v2, w) <==> (has_part(v, w) && w != x) || w == y || w == z by {
        if has_part(v2, w) && w != y && w != z {
            let i = choose|i: int| #[trigger] part_is(v2, w, i);
            if w.run == t {
                let k = if i < j { i } else { i - 1 };
                if i < j { assert(g[i] == f[i]); } else if i > j + 1 { assert(g[i] == f[i - 1]); }
                assert(part_is(v, w, k));
                if w == x { part_one(v, w, k, j); }
            } else {
                assert(part_is(v, w, i));
            }
        }
        if has_part(v, w) && w != x {
            let i = choose|i: int| #[trigger] part_is(v, w, i);
            if w.run == t {
                let k = if i < j { i } else { i + 1 };
                if i < j { assert(g[i] == f[i]); } else if i > j { assert(g[i + 1] == f[i]); }
                assert(part_is(v2, w, k));
            } else {
                assert(part_is(v2, w, i));
            }
        }
    }
}
pub proof fn cum_strict(f: Seq<Fragment>, i: int, j: int)
    requires frs_ok(f), f.len() > 1, 0 <= i < j <= f.len(),
    ensures cum(f, i) < cum(f, j),
{
    cum_le(f, i + 1, j);
    assert(f[i].len > 0);
}
/// The one right after another.
pub proof fn part_next(v: Table, x: Fr, i: int, y: Fr, j: int)
    requires table_ok(v), part_is(v, x, i), part_is(v, y, j), x.run == y.run, x.start + x.len == y.start, x.len > 0,
    ensures j == i + 1,
{
    v[x.run].0.facts();
    let f = v[x.run].0@;
    if f.len() > 1 {
        if j < i + 1 { cum_strict(f, j, i + 1); }
        if i + 1 < j { cum_strict(f, i + 1, j); }
    }
}
pub open spec fn moved_from(x: Fr, back: bool, n: int) -> Fr {
    Fr { start: if back { x.start + n } else { x.start }, len: x.len - n, ..x }
}
pub open spec fn moved_to(y: Fr, back: bool, n: int) -> Fr {
    Fr { start: if back { y.start } else { y.start - n }, len: y.len + n, ..y }
}
pub proof fn moved_parts(v: Table, v2: Table, x: Fr, y: Fr, from: int, to: int, n: int)
    requires
        table_ok(v), table_ok(v2), v2.len() == v.len(), part_is(v, x, from), part_is(v, y, to), x.run == y.run,
        to == from + 1 || to == from - 1, 0 < n < x.len,
        forall|i: int| 0 <= i <= v.len() ==> #[trigger] base(v2, i) == base(v, i),
        forall|i: int| 0 <= i < v.len() && i != x.run ==> #[trigger] v2[i] == v[i],
        v2[x.run].0@ == moved(v[x.run].0@, from, to, n),
    ensures
        two_become(v, v2, x, y, moved_from(x, to < from, n), moved_to(y, to < from, n)),
{
    let t = x.run;
    let f = v[t].0@;
    let g = v2[t].0@;
    let x2 = moved_from(x, to < from, n);
    let y2 = moved_to(y, to < from, n);
    v[t].0.facts();
    moved_cum(f, from, to, n);
    assert(part_is(v2, x2, from));
    assert(part_is(v2, y2, to));
    assert forall|w: Fr| #[trigger] has_part(v2, w) <==> (has_part(v, w) && w != x && w != y) || w == x2 || w == y2 by {
        if has_part(v2, w) && w != x2 && w != y2 {
            let i = choose|i: int| #[trigger] part_is(v2, w, i);
            if w.run == t {
                assert(g[i] == f[i]);
                assert(part_is(v, w, i));
                if w == x { part_one(v, w, i, from); }
                if w == y { part_one(v, w, i, to); }
            } else {
                assert(part_is(v, w, i));
            }
        }
        if has_part(v, w) && w != x && w != y {
            let i = choose|i: int| #[trigger] part_is(v, w, i);
            if w.run == t {
                assert(g[i] == f[i]);
                assert(part_is(v2, w, i));
            } else {
                assert(part_is(v2, w, i));
            }
        }
    }
}
/// A run is added.
pub proof fn table_push(v: Table, v2: Table, fr: Fragment)
    requires
        table_ok(v), v2.len() == v.len() + 1, forall|i: int| 0 <= i < v.len() ==> #[trigger] v2[i] == v[i],
        v2.last().0.wf(), v2.last().0@ == seq![fr], v2.last().1 == sum(v), sum(v) + fr.len <= usize::MAX,
    ensures
        table_ok(v2),
        sum(v2) == sum(v) + fr.len,
        ({
            let y = Fr { run: v.len() as int, start: sum(v), len: fr.len as int, idx: fr.idx };
            forall|w: Fr| #[trigger] has_part(v2, w) <==> has_part(v, w) || w == y
        }),
{
    let y = Fr { run: v.len() as int, start: sum(v), len: fr.len as int, idx: fr.idx };
    assert forall|i: int| 0 <= i <= v.len() implies #[trigger] base(v2, i) == base(v, i) by { base_same(v, v2, i); }
    assert(total(seq![fr]) == fr.len) by { reveal_with_fuel(cum, 2); }
    assert(part_is(v2, y, 0));
    assert forall|w: Fr| #[trigger] has_part(v2, w) <==> has_part(v, w) || w == y by {
        if has_part(v2, w) {
            let i = choose|i: int| #[trigger] part_is(v2, w, i);
            if w.run == v.len() { assert(i == 0); } else { assert(part_is(v, w, i)); }
        }
        if has_part(v, w) {
            let i = choose|i: int| #[trigger] part_is(v, w, i);
            assert(part_is(v2, w, i));
        }
    }
}
/// The last run gets longer.
pub proof fn table_last(v: Table, v2: Table, n: int)
    requires
        table_ok(v), v.len() > 0, v2.len() == v.len(), forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] v2[i] == v[i],
        v2.last().0.wf(), v2.last().1 == v.last().1, total(v2.last().0@) == total(v.last().0@) + n, sum(v) + n <= usize::MAX,
    ensures
        table_ok(v2),
        sum(v2) == sum(v) + n,
        forall|i: int| 0 <= i < v.len() ==> #[trigger] base(v2, i) == base(v, i),
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] base(v2, i) == base(v, i) by { base_same(v, v2, i); }
    assert forall|k: int| 0 <= k < v2.len() implies (#[trigger] v2[k]).0.wf() && v2[k].1 == base(v2, k) by {
        assert(v[k].1 == base(v, k));
        if k != v.len() - 1 { assert(v2[k] == v[k]); assert(v[k].0.wf()); }
    }
}
pub proof fn push_parts(v: Table, v2: Table, fr: Fragment)
    requires
        table_ok(v), v.len() > 0, v2.len() == v.len(), forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] v2[i] == v[i],
        v2.last().0.wf(), v2.last().1 == v.last().1, v2.last().0@ == v.last().0@.push(fr), sum(v) + fr.len <= usize::MAX,
    ensures
        table_ok(v2),
        sum(v2) == sum(v) + fr.len,
        ({
            let y = Fr { run: v.len() - 1, start: sum(v), len: fr.len as int, idx: fr.idx };
            forall|w: Fr| #[trigger] has_part(v2, w) <==> has_part(v, w) || w == y
        }),
{
    let y = Fr { run: v.len() - 1, start: sum(v), len: fr.len as int, idx: fr.idx };
    let t = v.len() - 1;
    let f = v[t].0@;
    let g = v2[t].0@;
    assert forall|i: int| 0 <= i <= f.len() implies #[trigger] cum(g, i) == cum(f, i) by { cum_same(f, g, i); }
    assert(total(g) == cum(g, f.len() as int) + g[f.len() as int].len);
    assert(cum(g, f.len() as int) == cum(f, f.len() as int));
    table_last(v, v2, fr.len as int);
    assert(part_is(v2, y, f.len() as int));
    assert forall|w: Fr| #[trigger] has_part(v2, w) <==> has_part(v, w) || w == y by {
        if has_part(v2, w) && w != y {
            let i = choose|i: int| #[trigger] part_is(v2, w, i);
            if w.run == t { assert(i < f.len()); assert(g[i] == f[i]); }
            assert(part_is(v, w, i));
        }
        if has_part(v, w) {
            let i = choose|i: int| #[trigger] part_is(v, w, i);
            if w.run == t { assert(g[i] == f[i]); }
            assert(part_is(v2, w, i));
        }
    }
}
pub proof fn extend_parts(v: Table, v2: Table, n: int)
    requires
        table_ok(v), v.len() > 0, v2.len() == v.len(), forall|i: int| 0 <= i < v.len() - 1 ==> #[trigger] v2[i] == v[i],
        v2.last().0.wf(), v2.last().1 == v.last().1, sum(v) + n <= usize::MAX, n >= 0,
        v2.last().0@ == v.last().0@.update(v.last().0@.len() - 1, Fragment { len: (v.last().0@.last().len + n) as usize, idx: v.last().0@.last().idx }),
    ensures
        table_ok(v2),
        sum(v2) == sum(v) + n,
        forall|x: Fr| #![trigger has_part(v, x)] has_part(v, x) && x.run == v.len() - 1 && x.start + x.len == sum(v) && x.len > 0
            ==> parts_become(v, v2, x, Fr { len: x.len + n, ..x }, Fr { len: x.len + n, ..x }),
{
    let t = v.len() - 1;
    v[t].0.facts();
    let f = v[t].0@;
    let g = v2[t].0@;
    let l = f.len() - 1;
    assert forall|i: int| 0 <= i <= l implies #[trigger] cum(g, i) == cum(f, i) by { cum_same(f, g, i); }
    base_le(v, 0, t);
    cum_le(f, 0, l);
    assert(total(g) == cum(g, l) + g[l].len);
    assert(cum(g, l) == cum(f, l));
    assert(total(f) == cum(f, l) + f[l].len);
    v[t].0.facts();
    assert(total(f) + n <= usize::MAX);
    table_last(v, v2, n);
    assert forall|x: Fr| #![trigger has_part(v, x)] has_part(v, x) && x.run == t && x.start + x.len == sum(v) && x.len > 0 implies
        parts_become(v, v2, x, Fr { len: x.len + n, ..x }, Fr { len: x.len + n, ..x }) by {
        let j = choose|j: int| #[trigger] part_is(v, x, j);
        if j < l { cum_strict(f, j + 1, l + 1); }
        let y = Fr { len: x.len + n, ..x };
        assert(part_is(v2, y, l));
        assert forall|w: Fr| #[trigger] has_part(v2, w) <==> (has_part(v, w) && w != x) || w == y || w == y by {
            if has_part(v2, w) && w != y {
                let i = choose|i: int| #[trigger] part_is(v2, w, i);
                if w.run == t { assert(i < l); assert(g[i] == f[i]); if w == x { assert(part_is(v, w, i)); part_one(v, w, i, l); } }
                assert(part_is(v, w, i));
            }
            if has_part(v, w) && w != x {
                let i = choose|i: int| #[trigger] part_is(v, w, i);
                if w.run == t { assert(i < l); assert(g[i] == f[i]); }
                assert(part_is(v2, w, i));
            }
        }
    }
}
pub open spec fn shape_same(v: Table, v2: Table) -> bool { v2.len() == v.len() && sum(v2) == sum(v) }

impl VxDefault for ReplicaIndices {
    open spec fn is_default(&self) -> bool { self.vec@.len() == 0 }
}
impl RunIndices {
    pub open spec fn of(&self, id: u64) -> Table {
        if self.map@.contains_key(id) { self.map@[id].vec@ } else { Seq::empty() }
    }
    pub open spec fn wf(&self) -> bool {
        forall|id: u64| table_ok(#[trigger] self.of(id))
    }
}
%file run_indices.rs
%impl RunIndices
%fn get_mut
%sub self.map.entry($k).or_default() =>> self.map.entry_or_default($k)
    ensures
        r.vec@ == old(self).of(id),
        final(self).of(id) == final(r).vec@,
        forall|i: u64| i != id ==> #[trigger] final(self).of(i) == old(self).of(i),
%at start
    proof { assert forall|v: ReplicaIndices| #[trigger] v.is_default() implies v.vec@ =~= Seq::<(Fragments, usize)>::empty() by {} }
%fn idx_at_anchor
    requires
        self.wf(),
        anchor.contained_in < self.of(anchor.replica_id).len(),
        if bias == AnchorBias::Right {
            base(self.of(anchor.replica_id), anchor.contained_in as int) <= anchor.offset < base(self.of(anchor.replica_id), anchor.contained_in + 1)
        } else {
            base(self.of(anchor.replica_id), anchor.contained_in as int) < anchor.offset <= base(self.of(anchor.replica_id), anchor.contained_in + 1)
        },
    ensures
        exists|w: Fr| #[trigger] has_part(self.of(anchor.replica_id), w) && w.idx == r && w.run == anchor.contained_in
            && (if bias == AnchorBias::Right { w.start <= anchor.offset < w.start + w.len }
                else { w.start < anchor.offset <= w.start + w.len }),
%fn new
    ensures
        forall|i: u64| #[trigger] r.of(i) == Seq::<(Fragments, usize)>::empty(),
%impl ReplicaIndices
%fn append
    requires table_ok(old(self).vec@), sum(old(self).vec@) + len <= usize::MAX, idx != LeafIdx::<EditRun>::nowhere(),
    ensures
        table_ok(final(self).vec@),
        final(self).vec@.len() == old(self).vec@.len() + 1,
        sum(final(self).vec@) == sum(old(self).vec@) + len,
        ({
            let y = Fr { run: old(self).vec@.len() as int, start: sum(old(self).vec@), len: len as int, idx };
            forall|w: Fr| #[trigger] has_part(final(self).vec@, w) <==> has_part(old(self).vec@, w) || w == y
        }),
%sub let (last_offset, last_len) = self.vec.last().map(|(fragments, offset)| (fragments.len(), *offset)).unwrap_or((0, 0)); =>> let (last_offset, last_len) = match self.vec.last() { Some((fragments, offset)) => (fragments.len(), *offset), None => (0, 0) };
%at start
    let ghost v = self.vec@;
    proof {
        if v.len() > 0 {
            v.last().0.facts();
            base_le(v, 0, v.len() - 1);
            cum_le(v.last().0@, 0, v.last().0@.len() as int);
            assert(v[v.len() - 1].1 == base(v, v.len() - 1));
        }
    }
%at end
    proof { table_push(v, self.vec@, fragment); }
%fn append_to_last
%sub self.vec.last_mut().unwrap().0.append(split) =>> { let vx_n = self.vec.len(); self.vec[vx_n - 1].0.append(split) }
    requires
        table_ok(old(self).vec@), old(self).vec@.len() > 0, 0 < len, sum(old(self).vec@) + len <= usize::MAX,
        total(old(self).vec@.last().0@) > 0, idx != LeafIdx::<EditRun>::nowhere(),
    ensures
        table_ok(final(self).vec@),
        final(self).vec@.len() == old(self).vec@.len(),
        sum(final(self).vec@) == sum(old(self).vec@) + len,
        ({
            let y = Fr { run: old(self).vec@.len() - 1, start: sum(old(self).vec@), len: len as int, idx };
            forall|w: Fr| #[trigger] has_part(final(self).vec@, w) <==> has_part(old(self).vec@, w) || w == y
        }),
%at start
    let ghost v = self.vec@;
    proof {
        v.last().0.facts();
        base_le(v, 0, v.len() - 1);
        assert(v[v.len() - 1].1 == base(v, v.len() - 1));
    }
%at end
    proof { push_parts(v, self.vec@, split); }
%fn extend_last
%sub self.vec.last_mut().unwrap().0.extend(extend_by) =>> { let vx_n = self.vec.len(); self.vec[vx_n - 1].0.extend(extend_by) }
    requires
        table_ok(old(self).vec@), old(self).vec@.len() > 0, sum(old(self).vec@) + extend_by <= usize::MAX,
    ensures
        table_ok(final(self).vec@),
        final(self).vec@.len() == old(self).vec@.len(),
        sum(final(self).vec@) == sum(old(self).vec@) + extend_by,
        forall|x: Fr| #![trigger has_part(old(self).vec@, x)] has_part(old(self).vec@, x) && x.run == old(self).vec@.len() - 1 && x.start + x.len == sum(old(self).vec@) && x.len > 0
            ==> parts_become(old(self).vec@, final(self).vec@, x, Fr { len: x.len + extend_by, ..x }, Fr { len: x.len + extend_by, ..x }),
%at start
    let ghost v = self.vec@;
    proof {
        v.last().0.facts();
        base_le(v, 0, v.len() - 1);
        cum_le(v.last().0@, v.last().0@.len() - 1, v.last().0@.len() as int);
        assert(v[v.len() - 1].1 == base(v, v.len() - 1));
    }
%at end
    proof { extend_parts(v, self.vec@, extend_by as int); }
%fn idx_at_offset
    requires
        table_ok(self.vec@),
        run_ts < self.vec@.len(),
        if bias == AnchorBias::Right { base(self.vec@, run_ts as int) <= at_offset < base(self.vec@, run_ts + 1) }
        else { base(self.vec@, run_ts as int) < at_offset <= base(self.vec@, run_ts + 1) },
    ensures
        exists|w: Fr| #[trigger] has_part(self.vec@, w) && w.idx == r && w.run == run_ts
            && (if bias == AnchorBias::Right { w.start <= at_offset < w.start + w.len }
                else { w.start < at_offset <= w.start + w.len }),
%sub let (splits, offset) = &self[run_ts]; =>> let (splits, offset) = &self.vec[run_ts as usize];
%sub at_offset - offset =>> at_offset - *offset
%at start
    proof {
        let v = self.vec@;
        let t = run_ts as int;
        let f = v[t].0@;
        let b = base(v, t);
        v[t].0.facts();
        base_le(v, 0, t);
        assert(v[t].1 == b);
    }
%at end
    proof {
        let v = self.vec@;
        let t = run_ts as int;
        let f = v[t].0@;
        let at = at_offset - v[t].1;
        let j = choose|j: int| 0 <= j < f.len() && #[trigger] f[j].idx == vx_tail && (
            if bias == AnchorBias::Left { fr_at(f, at, j) } else { cum(f, j) <= at < cum(f, j + 1) });
        let w = Fr { run: t, start: base(v, t) + cum(f, j), len: f[j].len as int, idx: f[j].idx };
        assert(part_is(v, w, j));
        assert(has_part(v, w));
    }
%fn len
    ensures r == self.vec@.len(),
%fn move_len_to_next_split
%sub let (splits, offset) = &mut self[run_ts]; splits.move_len_to_next_fragment(split_at_offset - *offset, len_moved); =>> let vx_e = &mut self.vec[run_ts as usize]; vx_e.0.move_len_to_next_fragment(split_at_offset - vx_e.1, len_moved);
    requires
        table_ok(old(self).vec@), run_ts < old(self).vec@.len(),
        exists|x: Fr, y: Fr| #[trigger] has_part(old(self).vec@, x) && #[trigger] has_part(old(self).vec@, y)
            && x.run == run_ts && y.run == run_ts && x.start < split_at_offset < x.start + x.len == y.start && 0 < len_moved < x.len,
    ensures
        table_ok(final(self).vec@), shape_same(old(self).vec@, final(self).vec@),
        forall|x: Fr, y: Fr| #![trigger has_part(old(self).vec@, x), has_part(old(self).vec@, y)] has_part(old(self).vec@, x) && has_part(old(self).vec@, y)
            && x.run == run_ts && y.run == run_ts && x.start < split_at_offset < x.start + x.len == y.start
            ==> two_become(old(self).vec@, final(self).vec@, x, y, moved_from(x, false, len_moved as int), moved_to(y, false, len_moved as int)),
%at start
    let ghost v = self.vec@;
    let ghost t = run_ts as int;
    let ghost (x, y) = choose|x: Fr, y: Fr| #[trigger] has_part(self.vec@, x) && #[trigger] has_part(self.vec@, y)
            && x.run == run_ts && y.run == run_ts && x.start < split_at_offset < x.start + x.len == y.start && 0 < len_moved < x.len;
    let ghost j = choose|j: int| #[trigger] part_is(v, x, j);
    let ghost i = choose|i: int| #[trigger] part_is(v, y, i);
    proof {
        part_next(v, x, j, y, i);
        v[t].0.facts();
        assert(fr_in(v[t].0@, split_at_offset - v[t].1, j));
        assert(v[t].0@[j].len == x.len);
        cum_le(v[t].0@, 0, j);
        base_le(v, 0, t);
    }
%at end
    proof {
        let v2 = self.vec@;
        let f = v[t].0@;
        let at = split_at_offset - v[t].1;
        assert(v2[t].0@ == moved(f, j, j + 1, len_moved as int));
        moved_cum(f, j, j + 1, len_moved as int);
        table_change(v, v2, t);
        assert forall|x2: Fr, y2: Fr| #![trigger has_part(v, x2), has_part(v, y2)] has_part(v, x2) && has_part(v, y2)
            && x2.run == run_ts && y2.run == run_ts && x2.start < split_at_offset < x2.start + x2.len == y2.start implies
            two_become(v, v2, x2, y2, moved_from(x2, false, len_moved as int), moved_to(y2, false, len_moved as int)) by {
            let j2 = choose|j: int| #[trigger] part_is(v, x2, j);
            let i2 = choose|i: int| #[trigger] part_is(v, y2, i);
            fr_one(f, at, j, j2);
            part_next(v, x2, j2, y2, i2);
            moved_parts(v, v2, x2, y2, j2, i2, len_moved as int);
        }
    }
%fn move_len_to_prev_split
%sub let (splits, offset) = &mut self[run_ts]; splits.move_len_to_prev_split(split_at_offset - *offset, len_moved); =>> let vx_e = &mut self.vec[run_ts as usize]; vx_e.0.move_len_to_prev_split(split_at_offset - vx_e.1, len_moved);
    requires
        table_ok(old(self).vec@), run_ts < old(self).vec@.len(),
        exists|x: Fr, y: Fr| #[trigger] has_part(old(self).vec@, x) && #[trigger] has_part(old(self).vec@, y)
            && x.run == run_ts && y.run == run_ts && y.start + y.len == x.start < split_at_offset < x.start + x.len && 0 < len_moved < x.len && y.len > 0,
    ensures
        table_ok(final(self).vec@), shape_same(old(self).vec@, final(self).vec@),
        forall|x: Fr, y: Fr| #![trigger has_part(old(self).vec@, x), has_part(old(self).vec@, y)] has_part(old(self).vec@, x) && has_part(old(self).vec@, y)
            && x.run == run_ts && y.run == run_ts && y.start + y.len == x.start < split_at_offset < x.start + x.len && y.len > 0
            ==> two_become(old(self).vec@, final(self).vec@, x, y, moved_from(x, true, len_moved as int), moved_to(y, true, len_moved as int)),
%at start
    let ghost v = self.vec@;
    let ghost t = run_ts as int;
    let ghost (x, y) = choose|x: Fr, y: Fr| #[trigger] has_part(self.vec@, x) && #[trigger] has_part(self.vec@, y)
            && x.run == run_ts && y.run == run_ts && y.start + y.len == x.start < split_at_offset < x.start + x.len && 0 < len_moved < x.len && y.len > 0;
    let ghost j = choose|j: int| #[trigger] part_is(v, x, j);
    let ghost i = choose|i: int| #[trigger] part_is(v, y, i);
    proof {
        part_next(v, y, i, x, j);
        v[t].0.facts();
        assert(fr_in(v[t].0@, split_at_offset - v[t].1, j));
        assert(v[t].0@[j].len == x.len);
        cum_le(v[t].0@, 0, j);
        base_le(v, 0, t);
    }
%at end
    proof {
        let v2 = self.vec@;
        let f = v[t].0@;
        let at = split_at_offset - v[t].1;
        assert(v2[t].0@ == moved(f, j, j - 1, len_moved as int));
        moved_cum(f, j, j - 1, len_moved as int);
        table_change(v, v2, t);
        assert forall|x2: Fr, y2: Fr| #![trigger has_part(v, x2), has_part(v, y2)] has_part(v, x2) && has_part(v, y2)
            && x2.run == run_ts && y2.run == run_ts && y2.start + y2.len == x2.start < split_at_offset < x2.start + x2.len && y2.len > 0 implies
            two_become(v, v2, x2, y2, moved_from(x2, true, len_moved as int), moved_to(y2, true, len_moved as int)) by {
            let j2 = choose|j: int| #[trigger] part_is(v, x2, j);
            let i2 = choose|i: int| #[trigger] part_is(v, y2, i);
            fr_one(f, at, j, j2);
            part_next(v, y2, i2, x2, j2);
            moved_parts(v, v2, x2, y2, j2, i2, len_moved as int);
        }
    }
%fn split
%sub let (splits, offset) = &mut self[run_ts]; splits.split(at_offset - *offset, right_idx); =>> let vx_e = &mut self.vec[run_ts as usize]; vx_e.0.split(at_offset - vx_e.1, right_idx);
    requires
        table_ok(old(self).vec@), run_ts < old(self).vec@.len(), right_idx != LeafIdx::<EditRun>::nowhere(),
        exists|x: Fr| #[trigger] has_part(old(self).vec@, x) && x.run == run_ts && x.start < at_offset < x.start + x.len,
    ensures
        table_ok(final(self).vec@), shape_same(old(self).vec@, final(self).vec@),
        forall|x: Fr| #![trigger has_part(old(self).vec@, x)] has_part(old(self).vec@, x) && x.run == run_ts && x.start < at_offset < x.start + x.len
            ==> parts_become(old(self).vec@, final(self).vec@, x,
                Fr { len: at_offset - x.start, ..x }, Fr { start: at_offset as int, len: x.start + x.len - at_offset, idx: right_idx, ..x }),
%at start
    let ghost v = self.vec@;
    let ghost t = run_ts as int;
    let ghost x = choose|x: Fr| #[trigger] has_part(self.vec@, x) && x.run == run_ts && x.start < at_offset < x.start + x.len;
    let ghost j = choose|j: int| #[trigger] part_is(v, x, j);
    proof {
        v[t].0.facts();
        assert(fr_in(v[t].0@, at_offset - v[t].1, j));
        cum_le(v[t].0@, 0, j);
        base_le(v, 0, t);
    }
%at end
    proof {
        let v2 = self.vec@;
        let f = v[t].0@;
        let at = at_offset - v[t].1;
        split_cum(f, j, at, right_idx);
        table_change(v, v2, t);
        assert forall|x2: Fr| #![trigger has_part(v, x2)] has_part(v, x2) && x2.run == run_ts && x2.start < at_offset < x2.start + x2.len implies
            parts_become(v, v2, x2, Fr { len: at_offset - x2.start, ..x2 },
                Fr { start: at_offset as int, len: x2.start + x2.len - at_offset, idx: right_idx, ..x2 }) by {
            let j2 = choose|j: int| #[trigger] part_is(v, x2, j);
            fr_one(f, at, j, j2);
            split_parts(v, v2, x, j, at_offset as int, right_idx);
        }
    }
