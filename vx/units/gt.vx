// The tree as a mathematical object: what gtree.rs's nodes are a picture of.
// `lv[0]` is the leaves in order, `lv[k]` the inodes of height `k` in order,
// the last level is the root alone. A node's children, strung together, are
// the level below. Nothing here knows how many children fit in an inode.
%use prelude.vx
%raw
pub ghost struct Nd { pub kids: Seq<int>, pub par: int, pub len: int, pub lev: int }
pub ghost struct T { pub nd: Seq<Nd>, pub lpar: Seq<int>, pub llen: Seq<int>, pub lv: Seq<Seq<int>> }

pub open spec fn nowhere() -> int { usize::MAX as int }

/// The children of the nodes, strung together.
pub open spec fn flat(nd: Seq<Nd>, up: Seq<int>) -> Seq<int>
    decreases up.len(),
{
    if up.len() == 0 { Seq::empty() } else { flat(nd, up.drop_last()) + nd[up.last()].kids }
}
pub open spec fn no_dup(s: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}
impl T {
    pub open spec fn par(self, k: int, x: int) -> int { if k == 0 { self.lpar[x] } else { self.nd[x].par } }
    pub open spec fn len(self, k: int, x: int) -> int { if k == 0 { self.llen[x] } else { self.nd[x].len } }
    pub open spec fn tot(self, k: int, xs: Seq<int>) -> int
        decreases xs.len(),
    {
        if xs.len() == 0 { 0 } else { self.tot(k, xs.drop_last()) + self.len(k, xs.last()) }
    }
    /// How much a node's children have more than it says.
    pub open spec fn off(self, x: int) -> int { self.tot(self.nd[x].lev - 1, self.nd[x].kids) - self.nd[x].len }
    pub open spec fn h(self) -> int { self.lv.len() - 1 }
    pub open spec fn root(self) -> int { self.lv[self.lv.len() - 1][0] }
    /// A place in the tree.
    pub open spec fn at(self, k: int, q: int) -> bool { 0 <= k < self.lv.len() && 0 <= q < self.lv[k].len() }
    pub open spec fn inode_at(self, k: int, q: int) -> bool { 1 <= k < self.lv.len() && 0 <= q < self.lv[k].len() }
    /// Where in the level below the children of the `q`-th start.
    pub open spec fn st(self, k: int, q: int) -> int { flat(self.nd, self.lv[k].take(q)).len() as int }
    /// ...and where its leaves start.
    pub open spec fn down(self, k: int, q: int) -> int
        decreases k,
    {
        if k <= 0 { q } else { self.down(k - 1, self.st(k, q)) }
    }
    pub open spec fn node_ok(self, k: int, x: int) -> bool {
        &&& 0 <= x < self.nd.len()
        &&& self.nd[x].lev == k
        &&& self.nd[x].kids.len() >= 1
        &&& forall|j: int| 0 <= j < self.nd[x].kids.len() ==> self.par(k - 1, #[trigger] self.nd[x].kids[j]) == x
    }
    #[verifier::opaque]
    pub open spec fn shape(self) -> bool {
        &&& self.lv.len() >= 2
        &&& self.lv[self.lv.len() - 1].len() == 1
        &&& self.nd[self.root()].par == nowhere()
        &&& self.nd.len() <= nowhere()
        &&& self.llen.len() <= nowhere()
        &&& self.lpar.len() == self.llen.len()
        &&& forall|k: int| 1 <= k < self.lv.len() ==> flat(self.nd, #[trigger] self.lv[k]) == self.lv[k - 1]
        &&& forall|k: int, q: int| self.inode_at(k, q) ==> self.node_ok(k, #[trigger] self.lv[k][q])
        &&& forall|k: int| 0 <= k < self.lv.len() ==> no_dup(#[trigger] self.lv[k])
        &&& forall|q: int| 0 <= q < self.lv[0].len() ==> 0 <= #[trigger] self.lv[0][q] < self.llen.len()
    }
    /// Every inode is in it.
    pub open spec fn all_in(self) -> bool {
        forall|x: int| 0 <= x < self.nd.len() ==> #[trigger] self.has(x)
    }
    pub open spec fn has(self, x: int) -> bool {
        exists|q: int| self.inode_at(self.nd[x].lev, q) && #[trigger] self.lv[self.nd[x].lev][q] == x
    }
    pub open spec fn lens_ok(self) -> bool {
        forall|x: int| 0 <= x < self.nd.len() ==> #[trigger] self.off(x) == 0
    }
    pub open spec fn nonneg(self) -> bool {
        &&& forall|x: int| 0 <= x < self.nd.len() ==> (#[trigger] self.nd[x]).len >= 0
        &&& forall|x: int| 0 <= x < self.llen.len() ==> #[trigger] self.llen[x] >= 0
    }
}

// ---------------------------------------------------------------- sequences

pub proof fn flat_cong(a: Seq<Nd>, b: Seq<Nd>, up: Seq<int>)
    requires forall|i: int| 0 <= i < up.len() ==> a[#[trigger] up[i]].kids == b[up[i]].kids,
    ensures flat(a, up) == flat(b, up),
    decreases up.len(),
{
    if up.len() > 0 {
        let d = up.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies a[#[trigger] d[i]].kids == b[d[i]].kids by { assert(d[i] == up[i]); }
        flat_cong(a, b, d);
        assert(up[up.len() - 1] == up.last());
    }
}
pub proof fn flat_add(nd: Seq<Nd>, a: Seq<int>, b: Seq<int>)
    ensures flat(nd, a + b) == flat(nd, a) + flat(nd, b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(flat(nd, a) + flat(nd, b) =~= flat(nd, a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        flat_add(nd, a, b.drop_last());
        assert(flat(nd, a + b) =~= flat(nd, a) + flat(nd, b));
    }
}
pub proof fn flat_one(nd: Seq<Nd>, x: int)
    ensures flat(nd, seq![x]) == nd[x].kids,
{
    let s = seq![x];
    assert(s.drop_last() =~= Seq::<int>::empty());
    assert(s.last() == x);
    assert(flat(nd, s.drop_last()) =~= Seq::<int>::empty());
    assert(flat(nd, s) =~= nd[x].kids);
}
/// Around one of the nodes.
pub proof fn flat_at(nd: Seq<Nd>, up: Seq<int>, q: int)
    requires 0 <= q < up.len(),
    ensures
        flat(nd, up) == flat(nd, up.take(q)) + nd[up[q]].kids + flat(nd, up.skip(q + 1)),
        flat(nd, up.take(q + 1)) == flat(nd, up.take(q)) + nd[up[q]].kids,
{
    let x = up[q];
    assert(up.take(q + 1) =~= up.take(q) + seq![x]);
    flat_add(nd, up.take(q), seq![x]);
    flat_one(nd, x);
    assert(up =~= up.take(q + 1) + up.skip(q + 1));
    flat_add(nd, up.take(q + 1), up.skip(q + 1));
}
pub proof fn flat_take(nd: Seq<Nd>, up: Seq<int>, q: int)
    requires 0 <= q <= up.len(),
    ensures flat(nd, up) == flat(nd, up.take(q)) + flat(nd, up.skip(q)),
{
    assert(up =~= up.take(q) + up.skip(q));
    flat_add(nd, up.take(q), up.skip(q));
}
/// One whose child stands at a place.
pub proof fn flat_find(nd: Seq<Nd>, up: Seq<int>, p: int) -> (r: (int, int))
    requires 0 <= p < flat(nd, up).len(),
    ensures
        0 <= r.0 < up.len(), 0 <= r.1 < nd[up[r.0]].kids.len(),
        flat(nd, up.take(r.0)).len() + r.1 == p,
        nd[up[r.0]].kids[r.1] == flat(nd, up)[p],
    decreases up.len(),
{
    let d = up.drop_last();
    let n = flat(nd, d).len();
    if p >= n {
        assert(up.take(up.len() - 1) =~= d);
        (up.len() - 1, p - n)
    } else {
        let r = flat_find(nd, d, p);
        assert(d.take(r.0) =~= up.take(r.0));
        r
    }
}
pub proof fn no_dup_idx(s: Seq<int>, i: int, j: int)
    requires no_dup(s), 0 <= i < s.len(), 0 <= j < s.len(), s[i] == s[j],
    ensures i == j,
{
    if i < j { assert(s[i] != s[j]); }
    if j < i { assert(s[j] != s[i]); }
}
pub proof fn no_dup_insert(s: Seq<int>, p: int, x: int)
    requires no_dup(s), 0 <= p <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != x,
    ensures no_dup(s.insert(p, x)),
{
    let s2 = s.insert(p, x);
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies #[trigger] s2[i] != #[trigger] s2[j] by {
        let a = if i < p { i } else { i - 1 };
        let b = if j < p { j } else { j - 1 };
        if i == p { assert(s2[j] == s[b]); } else if j == p { assert(s2[i] == s[a]); } else { assert(s2[i] == s[a] && s2[j] == s[b]); assert(s[a] != s[b]); }
    }
}

pub proof fn tot_cong(a: T, b: T, k: int, xs: Seq<int>)
    requires forall|i: int| 0 <= i < xs.len() ==> a.len(k, #[trigger] xs[i]) == b.len(k, xs[i]),
    ensures a.tot(k, xs) == b.tot(k, xs),
    decreases xs.len(),
{
    if xs.len() > 0 {
        let d = xs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies a.len(k, #[trigger] d[i]) == b.len(k, d[i]) by { assert(d[i] == xs[i]); }
        tot_cong(a, b, k, d);
        assert(xs[xs.len() - 1] == xs.last());
    }
}
pub proof fn tot_add(t: T, k: int, a: Seq<int>, b: Seq<int>)
    ensures t.tot(k, a + b) == t.tot(k, a) + t.tot(k, b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        tot_add(t, k, a, b.drop_last());
    }
}
pub proof fn tot_one(t: T, k: int, x: int)
    ensures t.tot(k, seq![x]) == t.len(k, x),
{
    let s = seq![x];
    assert(s.drop_last() =~= Seq::<int>::empty());
    assert(s.last() == x);
    assert(t.tot(k, s.drop_last()) == 0);
}
pub proof fn tot_insert(t: T, k: int, xs: Seq<int>, p: int, x: int)
    requires 0 <= p <= xs.len(),
    ensures t.tot(k, xs.insert(p, x)) == t.tot(k, xs) + t.len(k, x),
{
    assert(xs.insert(p, x) =~= xs.take(p) + seq![x] + xs.skip(p));
    assert(xs =~= xs.take(p) + xs.skip(p));
    tot_add(t, k, xs.take(p) + seq![x], xs.skip(p));
    tot_add(t, k, xs.take(p), seq![x]);
    tot_add(t, k, xs.take(p), xs.skip(p));
    tot_one(t, k, x);
}
pub proof fn tot_at(t: T, k: int, xs: Seq<int>, p: int)
    requires 0 <= p < xs.len(),
    ensures
        t.tot(k, xs.take(p + 1)) == t.tot(k, xs.take(p)) + t.len(k, xs[p]),
        t.tot(k, xs) == t.tot(k, xs.take(p + 1)) + t.tot(k, xs.skip(p + 1)),
{
    assert(xs.take(p + 1).drop_last() =~= xs.take(p));
    assert(xs.take(p + 1).last() == xs[p]);
    assert(xs =~= xs.take(p + 1) + xs.skip(p + 1));
    tot_add(t, k, xs.take(p + 1), xs.skip(p + 1));
}
pub proof fn tot_nonneg(t: T, k: int, xs: Seq<int>)
    requires forall|i: int| 0 <= i < xs.len() ==> t.len(k, #[trigger] xs[i]) >= 0,
    ensures t.tot(k, xs) >= 0,
    decreases xs.len(),
{
    if xs.len() > 0 {
        let d = xs.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies t.len(k, #[trigger] d[i]) >= 0 by { assert(d[i] == xs[i]); }
        tot_nonneg(t, k, d);
        assert(xs[xs.len() - 1] == xs.last());
    }
}
/// One element's length changed by `e`.
pub proof fn tot_changed(a: T, b: T, k: int, xs: Seq<int>, j: int, e: int)
    requires
        no_dup(xs), 0 <= j < xs.len(),
        forall|i: int| 0 <= i < xs.len() ==> b.len(k, #[trigger] xs[i]) == a.len(k, xs[i]) + if i == j { e } else { 0 },
    ensures b.tot(k, xs) == a.tot(k, xs) + e,
    decreases xs.len(),
{
    let d = xs.drop_last();
    assert(xs[xs.len() - 1] == xs.last());
    assert forall|i: int| 0 <= i < d.len() implies b.len(k, #[trigger] d[i]) == a.len(k, d[i]) + if i == j { e } else { 0 } by { assert(d[i] == xs[i]); }
    if j == xs.len() - 1 {
        tot_cong(a, b, k, d);
    } else {
        assert(no_dup(d)) by {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] != #[trigger] d[j] by { assert(d[i] == xs[i] && d[j] == xs[j]); }
        }
        tot_changed(a, b, k, d, j, e);
    }
}

// ------------------------------------------------------------------- places

/// A node's place in its parent.
pub proof fn locate(t: T, k: int, p: int) -> (r: (int, int))
    requires t.shape(), t.at(k, p), k < t.h(),
    ensures
        t.inode_at(k + 1, r.0),
        ({
            let x = t.lv[k + 1][r.0];
            &&& t.node_ok(k + 1, x)
            &&& 0 <= r.1 < t.nd[x].kids.len()
            &&& t.nd[x].kids[r.1] == t.lv[k][p]
            &&& t.par(k, t.lv[k][p]) == x
            &&& t.st(k + 1, r.0) + r.1 == p
        }),
{
    reveal(T::shape);
    assert(flat(t.nd, t.lv[k + 1]) == t.lv[k]);
    let r = flat_find(t.nd, t.lv[k + 1], p);
    assert(t.inode_at(k + 1, r.0));
    assert(t.node_ok(k + 1, t.lv[k + 1][r.0]));
    r
}
/// The place of a child.
pub proof fn child_place(t: T, k: int, q: int, j: int)
    requires t.shape(), t.inode_at(k, q), 0 <= j < t.nd[t.lv[k][q]].kids.len(),
    ensures
        t.node_ok(k, t.lv[k][q]),
        t.at(k - 1, t.st(k, q) + j),
        t.lv[k - 1][t.st(k, q) + j] == t.nd[t.lv[k][q]].kids[j],
        t.st(k, q + 1) == t.st(k, q) + t.nd[t.lv[k][q]].kids.len(),
        t.st(k, q + 1) <= t.lv[k - 1].len(),
{
    reveal(T::shape);
    flat_at(t.nd, t.lv[k], q);
    assert(flat(t.nd, t.lv[k]) == t.lv[k - 1]);
    assert(t.node_ok(k, t.lv[k][q]));
}
/// One level of the tree.
pub proof fn level(t: T, k: int)
    requires t.shape(), 0 <= k < t.lv.len(),
    ensures
        no_dup(t.lv[k]),
        k >= 1 ==> flat(t.nd, t.lv[k]) == t.lv[k - 1],
        k == 0 ==> forall|q: int| 0 <= q < t.lv[0].len() ==> 0 <= #[trigger] t.lv[0][q] < t.llen.len(),
{
    reveal(T::shape);
}
pub proof fn place_of(t: T, k: int, q: int)
    requires t.shape(), t.inode_at(k, q),
    ensures t.node_ok(k, t.lv[k][q]),
{
    reveal(T::shape);
}
/// All of a node's children.
pub proof fn kids_slice(t: T, k: int, q: int)
    requires t.shape(), t.inode_at(k, q),
    ensures
        t.node_ok(k, t.lv[k][q]),
        0 <= t.st(k, q),
        t.st(k, q + 1) == t.st(k, q) + t.nd[t.lv[k][q]].kids.len(),
        t.st(k, q + 1) <= t.lv[k - 1].len(),
        t.nd[t.lv[k][q]].kids == t.lv[k - 1].subrange(t.st(k, q), t.st(k, q + 1)),
        no_dup(t.nd[t.lv[k][q]].kids),
        k == 1 ==> forall|j: int| 0 <= j < t.nd[t.lv[k][q]].kids.len() ==> 0 <= (#[trigger] t.nd[t.lv[k][q]].kids[j]) < t.llen.len(),
        k > 1 ==> forall|j: int| 0 <= j < t.nd[t.lv[k][q]].kids.len() ==> t.node_ok(k - 1, #[trigger] t.nd[t.lv[k][q]].kids[j]),
{
    place_of(t, k, q);
    child_place(t, k, q, 0);
    level(t, k - 1);
    let ks = t.nd[t.lv[k][q]].kids;
    let lo = t.lv[k - 1];
    let s = t.st(k, q);
    assert forall|j: int| 0 <= j < ks.len() implies #[trigger] ks[j] == lo[s + j] by { child_place(t, k, q, j); }
    assert(ks =~= lo.subrange(s, s + ks.len()));
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by {
        assert(ks[i] == lo[s + i] && ks[j] == lo[s + j]);
        assert(lo[s + i] != lo[s + j]);
    }
    if k == 1 {
        assert forall|j: int| 0 <= j < ks.len() implies 0 <= (#[trigger] ks[j]) < t.llen.len() by { assert(ks[j] == lo[s + j]); }
    } else {
        assert forall|j: int| 0 <= j < ks.len() implies t.node_ok(k - 1, #[trigger] ks[j]) by {
            assert(ks[j] == lo[s + j]);
            assert(t.inode_at(k - 1, s + j));
            place_of(t, k - 1, s + j);
        }
    }
}
pub proof fn one_place(t: T, k: int, p: int, p2: int)
    requires t.shape(), t.at(k, p), t.at(k, p2), t.lv[k][p] == t.lv[k][p2],
    ensures p == p2,
{
    reveal(T::shape);
    no_dup_idx(t.lv[k], p, p2);
}
/// Where levels end.
pub proof fn ends(t: T, k: int)
    requires t.shape(), 0 <= k <= t.h(),
    ensures
        t.down(k, 0) == 0, t.down(k, t.lv[k].len() as int) == t.lv[0].len(),
        t.lv[k].len() >= 1,
    decreases t.h() - k, k,
{
    reveal(T::shape);
    if k == t.h() {
    } else {
        ends_len(t, k);
    }
    if k > 0 {
        assert(t.lv[k].take(0) =~= Seq::<int>::empty());
        assert(t.st(k, 0) == 0);
        assert(t.lv[k].take(t.lv[k].len() as int) =~= t.lv[k]);
        assert(t.st(k, t.lv[k].len() as int) == t.lv[k - 1].len());
        ends_below(t, k - 1);
    }
}
proof fn ends_len(t: T, k: int)
    requires t.shape(), 0 <= k < t.h(),
    ensures t.lv[k].len() >= 1,
    decreases t.h() - k,
{
    reveal(T::shape);
    if k + 1 < t.h() { ends_len(t, k + 1); }
    assert(t.inode_at(k + 1, 0));
    child_place(t, k + 1, 0, 0);
}
proof fn ends_below(t: T, k: int)
    requires t.shape(), 0 <= k <= t.h(),
    ensures t.down(k, 0) == 0, t.down(k, t.lv[k].len() as int) == t.lv[0].len(),
    decreases k,
{
    reveal(T::shape);
    if k > 0 {
        assert(t.lv[k].take(0) =~= Seq::<int>::empty());
        assert(t.st(k, 0) == 0);
        assert(t.lv[k].take(t.lv[k].len() as int) =~= t.lv[k]);
        assert(flat(t.nd, t.lv[k]) == t.lv[k - 1]);
        ends_below(t, k - 1);
    }
}
/// The root is the top level, alone.
pub proof fn top(t: T)
    requires t.shape(),
    ensures t.h() >= 1, t.lv[t.h()].len() == 1, t.inode_at(t.h(), 0), t.lv[t.h()][0] == t.root(), t.node_ok(t.h(), t.root()), t.nd[t.root()].par == nowhere(),
{
    reveal(T::shape);
    assert(t.inode_at(t.h(), 0));
}
/// Only the root has no parent.
pub proof fn not_top(t: T, k: int, q: int)
    requires t.shape(), t.inode_at(k, q),
    ensures
        t.lv[k][q] == t.root() <==> k == t.h(),
        t.nd[t.lv[k][q]].par == nowhere() <==> k == t.h(),
        k < t.h() ==> 0 <= t.nd[t.lv[k][q]].par < t.nd.len(),
        t.nd.len() <= nowhere(),
{
    reveal(T::shape);
    top(t);
    place_of(t, k, q);
    if k < t.h() {
        let r = locate(t, k, q);
    }
}
/// An inode's place.
pub proof fn where_is(t: T, x: int) -> (r: (int, int))
    requires t.shape(), t.all_in(), 0 <= x < t.nd.len(),
    ensures r.0 == t.nd[x].lev, t.inode_at(r.0, r.1), t.lv[r.0][r.1] == x, t.node_ok(r.0, x),
{
    reveal(T::shape);
    assert(t.has(x));
    let q = choose|q: int| t.inode_at(t.nd[x].lev, q) && #[trigger] t.lv[t.nd[x].lev][q] == x;
    assert(t.node_ok(t.nd[x].lev, t.lv[t.nd[x].lev][q]));
    (t.nd[x].lev, q)
}

// ------------------------------------------------------------------ lengths

/// As long as nothing's off, it doesn't matter at which level lengths are
/// added up.
pub proof fn tot_down(t: T, k: int, up: Seq<int>)
    requires
        k >= 1,
        forall|i: int| 0 <= i < up.len() ==> t.nd[#[trigger] up[i]].lev == k && t.off(up[i]) == 0,
    ensures t.tot(k, up) == t.tot(k - 1, flat(t.nd, up)),
    decreases up.len(),
{
    if up.len() > 0 {
        let d = up.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies t.nd[#[trigger] d[i]].lev == k && t.off(d[i]) == 0 by { assert(d[i] == up[i]); }
        tot_down(t, k, d);
        assert(up[up.len() - 1] == up.last());
        tot_add(t, k - 1, flat(t.nd, d), t.nd[up.last()].kids);
    }
}
/// The length before a place is the length of the leaves before it.
pub proof fn pre_down(t: T, k: int, q: int)
    requires t.shape(), t.lens_ok(), 0 <= k <= t.h(), 0 <= q <= t.lv[k].len(),
    ensures
        t.tot(k, t.lv[k].take(q)) == t.tot(0, t.lv[0].take(t.down(k, q))),
        0 <= t.down(k, q) <= t.lv[0].len(),
    decreases k,
{
    reveal(T::shape);
    if k > 0 {
        let up = t.lv[k].take(q);
        assert forall|i: int| 0 <= i < up.len() implies t.nd[#[trigger] up[i]].lev == k && t.off(up[i]) == 0 by {
            assert(up[i] == t.lv[k][i]);
            place_of(t, k, i);
        }
        tot_down(t, k, up);
        flat_take(t.nd, t.lv[k], q);
        let s = t.st(k, q);
        assert(flat(t.nd, t.lv[k]) == t.lv[k - 1]);
        assert(t.lv[k - 1].take(s) =~= flat(t.nd, up));
        pre_down(t, k - 1, s);
    }
}
pub proof fn pre_mono(t: T, k: int, a: int, b: int)
    requires t.shape(), t.nonneg(), 0 <= k <= t.h(), 0 <= a <= b <= t.lv[k].len(),
    ensures t.tot(k, t.lv[k].take(a)) <= t.tot(k, t.lv[k].take(b)),
    decreases b - a,
{
    if a < b {
        pre_mono(t, k, a, b - 1);
        let xs = t.lv[k];
        tot_at(t, k, xs, b - 1);
        reveal(T::shape);
        assert(t.len(k, xs[b - 1]) >= 0) by {
            if k == 0 { assert(0 <= t.lv[0][b - 1] < t.llen.len()); } else { place_of(t, k, b - 1); }
        }
    }
}
/// The root is as long as all of the leaves.
pub proof fn root_len(t: T)
    requires t.shape(), t.lens_ok(),
    ensures t.nd[t.root()].len == t.tot(0, t.lv[0]),
{
    top(t);
    let k = t.h();
    pre_down(t, k, 1);
    ends(t, k);
    assert(t.lv[k].take(1) =~= seq![t.root()]);
    tot_one(t, k, t.root());
    assert(t.lv[0].take(t.lv[0].len() as int) =~= t.lv[0]);
}
/// Where the children of a node start and end.
pub proof fn kid_pre(t: T, k: int, q: int, j: int)
    requires t.shape(), t.inode_at(k, q), 0 <= j <= t.nd[t.lv[k][q]].kids.len(),
    ensures
        t.tot(k - 1, t.lv[k - 1].take(t.st(k, q) + j)) == t.tot(k - 1, t.lv[k - 1].take(t.st(k, q))) + t.tot(k - 1, t.nd[t.lv[k][q]].kids.take(j)),
{
    kids_slice(t, k, q);
    let lo = t.lv[k - 1];
    let s = t.st(k, q);
    assert(lo.take(s + j) =~= lo.take(s) + t.nd[t.lv[k][q]].kids.take(j));
    tot_add(t, k - 1, lo.take(s), t.nd[t.lv[k][q]].kids.take(j));
}
