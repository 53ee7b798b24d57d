// What a run's parts are, and what's done to one.
%file run_indices.rs
%item struct Fragment +Clone +Copy -Copy -Clone -PartialEq
%raw
/// The length of the first `j` fragments.
pub open spec fn cum(f: Seq<Fragment>, j: int) -> int
    decreases j,
{
    if j <= 0 { 0 } else { cum(f, j - 1) + f[j - 1].len }
}
pub open spec fn total(f: Seq<Fragment>) -> int { cum(f, f.len() as int) }
/// A fragment is empty only if it's the one fragment of an empty run.
pub open spec fn frs_ok(f: Seq<Fragment>) -> bool {
    &&& f.len() > 0
    &&& total(f) <= usize::MAX
    &&& f.len() > 1 ==> forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).len > 0
}
/// The fragment an offset falls in or at the end of.
pub open spec fn fr_at(f: Seq<Fragment>, at: int, j: int) -> bool {
    &&& 0 <= j < f.len()
    &&& at <= cum(f, j + 1)
    &&& cum(f, j) < at || (at == 0 && j == 0)
}
pub open spec fn fr_in(f: Seq<Fragment>, at: int, j: int) -> bool {
    0 <= j < f.len() && cum(f, j) < at < cum(f, j + 1)
}
pub proof fn cum_le(f: Seq<Fragment>, i: int, j: int)
    requires 0 <= i <= j <= f.len(),
    ensures 0 <= cum(f, i) <= cum(f, j),
    decreases j,
{
    if i < j { cum_le(f, i, j - 1); } else if i > 0 { cum_le(f, i - 1, j - 1); }
}
pub proof fn cum_same(f: Seq<Fragment>, g: Seq<Fragment>, j: int)
    requires 0 <= j <= f.len(), j <= g.len(), forall|i: int| 0 <= i < j ==> (#[trigger] f[i]).len == g[i].len,
    ensures cum(f, j) == cum(g, j),
    decreases j,
{
    if j > 0 { cum_same(f, g, j - 1); assert(f[j - 1].len == g[j - 1].len); }
}
pub proof fn fr_one(f: Seq<Fragment>, at: int, i: int, j: int)
    requires fr_at(f, at, i), fr_at(f, at, j),
    ensures i == j,
{
    if i < j { cum_le(f, i + 1, j); }
    if j < i { cum_le(f, j + 1, i); }
}
/// In two at `at`.
pub open spec fn split_at(f: Seq<Fragment>, j: int, at: int, idx: LeafIdx<EditRun>) -> Seq<Fragment> {
    f.update(j, Fragment { len: (at - cum(f, j)) as usize, idx: f[j].idx })
        .insert(j + 1, Fragment { len: (cum(f, j + 1) - at) as usize, idx })
}
pub open spec fn moved(f: Seq<Fragment>, from: int, to: int, n: int) -> Seq<Fragment> {
    f.update(from, Fragment { len: (f[from].len - n) as usize, idx: f[from].idx })
        .update(to, Fragment { len: (f[to].len + n) as usize, idx: f[to].idx })
}
pub proof fn split_cum(f: Seq<Fragment>, j: int, at: int, idx: LeafIdx<EditRun>)
    requires frs_ok(f), fr_in(f, at, j),
    ensures
        frs_ok(split_at(f, j, at, idx)),
        total(split_at(f, j, at, idx)) == total(f),
        split_at(f, j, at, idx).len() == f.len() + 1,
        forall|i: int| 0 <= i <= f.len() + 1 ==> #[trigger] cum(split_at(f, j, at, idx), i) ==
            (if i <= j { cum(f, i) } else if i == j + 1 { at } else { cum(f, i - 1) }),
{
    let g = split_at(f, j, at, idx);
    cum_le(f, 0, j);
    cum_le(f, j + 1, f.len() as int);
    assert forall|i: int| 0 <= i <= f.len() + 1 implies #[trigger] cum(g, i) ==
        (if i <= j { cum(f, i) } else if i == j + 1 { at } else { cum(f, i - 1) }) by {
        split_cum_one(f, j, at, idx, i);
    }
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).len > 0 by {
        if i < j { assert(g[i] == f[i]); } else if i > j + 1 { assert(g[i] == f[i - 1]); }
    }
}
pub proof fn split_cum_one(f: Seq<Fragment>, j: int, at: int, idx: LeafIdx<EditRun>, i: int)
    requires frs_ok(f), fr_in(f, at, j), 0 <= i <= f.len() + 1,
    ensures
        cum(split_at(f, j, at, idx), i) == (if i <= j { cum(f, i) } else if i == j + 1 { at } else { cum(f, i - 1) }),
    decreases i,
{
    let g = split_at(f, j, at, idx);
    cum_le(f, 0, j);
    cum_le(f, j + 1, f.len() as int);
    if i > 0 {
        split_cum_one(f, j, at, idx, i - 1);
        if i <= j { assert(g[i - 1] == f[i - 1]); }
        else if i == j + 1 { assert(g[j].len == at - cum(f, j)); }
        else if i == j + 2 { assert(g[j + 1].len == cum(f, j + 1) - at); }
        else { assert(g[i - 1] == f[i - 2]); }
    }
}
pub proof fn moved_cum(f: Seq<Fragment>, from: int, to: int, n: int)
    requires frs_ok(f), 0 <= from < f.len(), 0 <= to < f.len(), to == from + 1 || to == from - 1, 0 < n < f[from].len,
    ensures
        frs_ok(moved(f, from, to, n)),
        total(moved(f, from, to, n)) == total(f),
        moved(f, from, to, n).len() == f.len(),
        f[to].len + n <= usize::MAX,
        forall|i: int| 0 <= i <= f.len() ==> #[trigger] cum(moved(f, from, to, n), i) ==
            (if i == from + 1 && to > from { cum(f, i) - n } else if i == from && to < from { cum(f, i) + n } else { cum(f, i) }),
{
    let g = moved(f, from, to, n);
    let lo = if from < to { from } else { to };
    cum_le(f, 0, lo);
    cum_le(f, lo + 2, f.len() as int);
    assert(cum(f, lo + 2) == cum(f, lo) + f[lo].len + f[lo + 1].len) by { reveal_with_fuel(cum, 3); }
    assert forall|i: int| 0 <= i <= f.len() implies #[trigger] cum(g, i) ==
            (if i == from + 1 && to > from { cum(f, i) - n } else if i == from && to < from { cum(f, i) + n } else { cum(f, i) }) by {
        moved_cum_one(f, from, to, n, i);
    }
}
pub proof fn moved_cum_one(f: Seq<Fragment>, from: int, to: int, n: int, i: int)
    requires 0 <= from < f.len(), 0 <= to < f.len(), to == from + 1 || to == from - 1, 0 < n < f[from].len, f[to].len + n <= usize::MAX, 0 <= i <= f.len(),
    ensures
        cum(moved(f, from, to, n), i) ==
            (if i == from + 1 && to > from { cum(f, i) - n } else if i == from && to < from { cum(f, i) + n } else { cum(f, i) }),
    decreases i,
{
    if i > 0 { moved_cum_one(f, from, to, n, i - 1); }
}
%file run_indices.rs
%impl Fragment
%fn new
    ensures r.len == len, r.idx == idx,
%fn null
    ensures r.len == 0, r.idx == LeafIdx::<EditRun>::nowhere(),
%fn split
    requires at_offset < old(self).len,
    ensures
        final(self).len == at_offset, final(self).idx == old(self).idx,
        r.len == old(self).len - at_offset, r.idx == right_idx,
