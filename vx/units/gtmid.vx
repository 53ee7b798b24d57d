// A tree that's being changed: an inode has been split, its parent doesn't
// know of it yet, and its length is off.
%use gtraw.vx
%raw
/// The only length that's off is `y`'s, by `d`.
pub open spec fn owes(t: T, y: int, d: int) -> bool {
    forall|z: int| 0 <= z < t.nd.len() ==> #[trigger] t.off(z) == if z == y { d } else { 0 }
}
/// `rt` is a picture of `t` if what's been split off `x` is still part of it.
#[verifier::opaque]
pub open spec fn mid(t: T, rt: T, x: int, s: Option<Nd>) -> bool {
    &&& t.shape() && t.all_in() && t.nonneg() && 0 <= x < t.nd.len()
    &&& rt.nd.len() == t.nd.len() && rt.lpar == t.lpar && rt.llen == t.llen
    &&& forall|z: int| 0 <= z < t.nd.len() && z != x ==> like(rt.nd[z], #[trigger] t.nd[z])
    &&& forall|z: int| 0 <= z < t.nd.len() ==> (#[trigger] rt.nd[z]).lev == if t.nd[z].lev == 1 { 1int } else { 2 }
    &&& rt.nd[x].par == t.nd[x].par
    &&& joint(rt, rt.nd[x], s, t.nd[x].kids, t.nd[x].len)
}
/// The place of a leaf in its parent.
pub open spec fn kid_mid(t: T, rt: T, x: int, s: Option<Nd>, c: int, i: int) -> bool {
    if t.nd[x].lev == 1 && t.lpar[c] == x {
        0 <= i < rt.nd[x].kids.len() && rt.nd[x].kids[i] == c || s is Some && 0 <= i < s->Some_0.kids.len() && s->Some_0.kids[i] == c
    } else {
        t.kid_at(c, i)
    }
}
pub proof fn joint_same(r1: T, r2: T, a: Nd, s: Option<Nd>, kids: Seq<int>, len: int)
    requires
        joint(r1, a, s, kids, len),
        forall|i: int| 0 <= i < kids.len() ==> r1.len(a.lev - 1, #[trigger] kids[i]) == r2.len(a.lev - 1, kids[i]),
    ensures joint(r2, a, s, kids, len),
{
    if s is Some {
        let n = s->Some_0;
        assert forall|i: int| 0 <= i < a.kids.len() implies r1.len(a.lev - 1, #[trigger] a.kids[i]) == r2.len(a.lev - 1, a.kids[i]) by { assert(kids[i] == a.kids[i]); }
        assert forall|i: int| 0 <= i < n.kids.len() implies r1.len(a.lev - 1, #[trigger] n.kids[i]) == r2.len(a.lev - 1, n.kids[i]) by { assert(kids[a.kids.len() + i] == n.kids[i]); }
        tot_same(r1, a.lev - 1, r2, a.lev - 1, a.kids);
        tot_same(r1, a.lev - 1, r2, a.lev - 1, n.kids);
    }
}
pub proof fn pos_same(t: T, t2: T, c: int)
    requires t.shape(), t2.shape(), t.lv[0] == t2.lv[0], t.leaf_in(c),
    ensures t2.leaf_in(c), t.pos(c) == t2.pos(c),
{
    let p = t.pos(c);
    assert(t2.lv[0][p] == c);
    let q = t2.pos(c);
    unshape(t);
    unshape(t2);
    no_dup_idx(t.lv[0], p, q);
}
/// Children's lengths aren't negative, and none is longer than all.
pub proof fn kid_le(t: T, k: int, q: int, j: int)
    requires t.shape(), t.nonneg(), t.inode_at(k, q), 0 <= j < t.nd[t.lv[k][q]].kids.len(),
    ensures
        0 <= t.len(k - 1, t.nd[t.lv[k][q]].kids[j]) <= t.tot(k - 1, t.nd[t.lv[k][q]].kids),
{
    let ks = t.nd[t.lv[k][q]].kids;
    kids_slice(t, k, q);
    assert forall|i: int| 0 <= i < ks.len() implies t.len(k - 1, #[trigger] ks[i]) >= 0 by {
        if k > 1 { assert(t.node_ok(k - 1, ks[i])); assert(t.nd[ks[i]].len >= 0); } else { assert(t.llen[ks[i]] >= 0); }
    }
    tot_at(t, k - 1, ks, j);
    let a = ks.take(j);
    let b = ks.skip(j + 1);
    assert forall|i: int| 0 <= i < a.len() implies t.len(k - 1, #[trigger] a[i]) >= 0 by { assert(a[i] == ks[i]); }
    assert forall|i: int| 0 <= i < b.len() implies t.len(k - 1, #[trigger] b[i]) >= 0 by { assert(b[i] == ks[j + 1 + i]); }
    tot_nonneg(t, k - 1, a);
    tot_nonneg(t, k - 1, b);
}
/// No inode is longer than the root.
pub proof fn anc_le(t: T, k: int, q: int)
    requires
        t.shape(), t.all_in(), t.nonneg(), t.inode_at(k, q),
        forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev > k ==> #[trigger] t.off(z) == 0,
    ensures t.nd[t.lv[k][q]].len <= t.nd[t.root()].len,
    decreases t.h() - k,
{
    let x = t.lv[k][q];
    not_top(t, k, q);
    if k < t.h() {
        assert(t.at(k, q));
        let r = locate(t, k, q);
        let u = t.lv[k + 1][r.0];
        kid_le(t, k + 1, r.0, r.1);
        assert(t.off(u) == 0);
        anc_le(t, k + 1, r.0);
    }
}
/// `len + d` isn't negative where `d` is owed, and not more than the root's.
pub proof fn owed(t: T, x: int, d: int)
    requires t.shape(), t.all_in(), t.nonneg(), 0 <= x < t.nd.len(), owes(t, x, d),
    ensures 0 <= t.nd[x].len + d <= t.nd[t.root()].len + d,
{
    let w = where_is(t, x);
    kid_le(t, w.0, w.1, 0);
    assert(t.off(x) == d);
    anc_le(t, w.0, w.1);
}
/// Where an inode's parent is.
pub proof fn above_it(t: T, x: int) -> (r: (int, int, int, int))
    requires t.shape(), t.all_in(), 0 <= x < t.nd.len(), t.nd[x].par != nowhere(),
    ensures
        ({
            let (k, q, u, j) = r;
            let p = t.nd[x].par;
            &&& t.inode_at(k, q) && t.lv[k][q] == x && k < t.h() && t.nd[x].lev == k && t.node_ok(k, x)
            &&& t.inode_at(k + 1, u) && t.lv[k + 1][u] == p && t.nd[p].lev == k + 1 && t.node_ok(k + 1, p)
            &&& 0 <= p < t.nd.len() && p != x
            &&& 0 <= j < t.nd[p].kids.len() && t.nd[p].kids[j] == x
            &&& forall|i: int| 0 <= i < t.nd[p].kids.len() && t.nd[p].kids[i] == x ==> i == j
            &&& no_dup(t.nd[p].kids)
            &&& forall|i: int| 0 <= i < t.nd[p].kids.len() ==> 0 <= (#[trigger] t.nd[p].kids[i]) < t.nd.len() && t.nd[p].kids[i] != p
        }),
{
    let w = where_is(t, x);
    not_top(t, w.0, w.1);
    assert(t.at(w.0, w.1));
    let r = locate(t, w.0, w.1);
    let p = t.nd[x].par;
    kids_slice(t, w.0 + 1, r.0);
    assert forall|i: int| 0 <= i < t.nd[p].kids.len() && t.nd[p].kids[i] == x implies i == r.1 by { no_dup_idx(t.nd[p].kids, i, r.1); }
    assert forall|i: int| 0 <= i < t.nd[p].kids.len() implies 0 <= (#[trigger] t.nd[p].kids[i]) < t.nd.len() && t.nd[p].kids[i] != p by {
        assert(t.node_ok(w.0, t.nd[p].kids[i]));
    }
    (w.0, w.1, r.0, r.1)
}
/// What's known of the children of one that's been split.
pub proof fn mid_kids(t: T, rt: T, x: int, s: Option<Nd>)
    requires mid(t, rt, x, s),
    ensures
        t.shape(), t.all_in(), t.nonneg(), rt.nd.len() == t.nd.len(), rt.lpar == t.lpar, rt.llen == t.llen, 0 <= x < t.nd.len(),
        no_dup(t.nd[x].kids),
        t.nd[x].lev >= 1,
        t.nd[x].lev == 1 ==> forall|j: int| 0 <= j < t.nd[x].kids.len() ==> 0 <= (#[trigger] t.nd[x].kids[j]) < t.llen.len() && t.llen[t.nd[x].kids[j]] >= 0,
        t.nd[x].lev > 1 ==> forall|j: int| 0 <= j < t.nd[x].kids.len() ==> 0 <= (#[trigger] t.nd[x].kids[j]) < t.nd.len() && t.nd[x].kids[j] != x && t.nd[t.nd[x].kids[j]].lev == t.nd[x].lev - 1,
        rt.nd[x].par == t.nd[x].par,
        rt.nd[x].lev == if t.nd[x].lev == 1 { 1int } else { 2 },
        joint(rt, rt.nd[x], s, t.nd[x].kids, t.nd[x].len),
{
    reveal(mid);
    let w = where_is(t, x);
    kids_slice(t, w.0, w.1);
    if t.nd[x].lev > 1 {
        assert forall|j: int| 0 <= j < t.nd[x].kids.len() implies 0 <= (#[trigger] t.nd[x].kids[j]) < t.nd.len() && t.nd[x].kids[j] != x && t.nd[t.nd[x].kids[j]].lev == t.nd[x].lev - 1 by {
            assert(t.node_ok(w.0 - 1, t.nd[x].kids[j]));
        }
    }
}
/// The parent of one that's been split: what its length is when what's been split off isn't counted.
pub proof fn mid_exact(t: T, rt: T, x: int, n: Nd, d: int, rt2: T)
    requires
        mid(t, rt, x, Some(n)), t.nd[x].par != nowhere(), owes(t, t.nd[x].par, d),
        rt2.nd.len() >= rt.nd.len(),
        forall|z: int| 0 <= z < rt.nd.len() && z != t.nd[x].par ==> (#[trigger] rt2.nd[z]).len == rt.nd[z].len,
        rt2.nd[t.nd[x].par].kids == rt.nd[t.nd[x].par].kids, rt2.nd[t.nd[x].par].lev == rt.nd[t.nd[x].par].lev,
    ensures
        ({
            let p = t.nd[x].par;
            &&& rt2.off(p) == t.nd[p].len + d - n.len - rt2.nd[p].len
            &&& t.nd[p].len + d - n.len >= rt.nd[x].len
            &&& rt.nd[x].len >= 0 && n.len >= 0
            &&& rt.nd[p].len == t.nd[p].len && rt.nd[p].kids == t.nd[p].kids && rt.nd[p].lev == 2 && rt.nd[p].par == t.nd[p].par
        }),
{
    mid_kids(t, rt, x, Some(n));
    let a = above_it(t, x);
    reveal(mid);
    let p = t.nd[x].par;
    let ks = t.nd[p].kids;
    let j = a.3;
    let k = a.0;
    assert(like(rt.nd[p], t.nd[p]));
    assert(t.off(p) == d);
    assert forall|i: int| 0 <= i < ks.len() implies rt2.len(1, #[trigger] ks[i]) == rt.nd[ks[i]].len && rt.nd[ks[i]].len == t.len(k, ks[i]) + if i == j { -n.len } else { 0 } by {
        if i != j { assert(ks[i] != x); assert(like(rt.nd[ks[i]], t.nd[ks[i]])); }
        assert(rt2.nd[ks[i]].len == rt.nd[ks[i]].len);
    }
    tot_changed2(t, k, rt2, 1, ks, j, -n.len);
    // lengths of what's been split
    let kx = rt.nd[x].lev - 1;
    assert forall|i: int| 0 <= i < n.kids.len() implies rt.len(kx, #[trigger] n.kids[i]) >= 0 by {
        let z = t.nd[x].kids[rt.nd[x].kids.len() + i];
        assert(z == n.kids[i]);
        if kx > 0 { assert(like(rt.nd[z], t.nd[z])); assert(t.nd[z].len >= 0); }
    }
    assert forall|i: int| 0 <= i < rt.nd[x].kids.len() implies rt.len(kx, #[trigger] rt.nd[x].kids[i]) >= 0 by {
        let z = t.nd[x].kids[i];
        assert(z == rt.nd[x].kids[i]);
        if kx > 0 { assert(like(rt.nd[z], t.nd[z])); assert(t.nd[z].len >= 0); }
    }
    tot_nonneg(rt, kx, n.kids);
    tot_nonneg(rt, kx, rt.nd[x].kids);
    tot_at(rt2, 1, ks, j);
    assert forall|i: int| 0 <= i < ks.len() implies rt2.len(1, #[trigger] ks[i]) >= 0 by {
        if i != j { assert(t.nd[ks[i]].len >= 0); }
    }
    let b = ks.take(j);
    let c = ks.skip(j + 1);
    assert forall|i: int| 0 <= i < b.len() implies rt2.len(1, #[trigger] b[i]) >= 0 by { assert(b[i] == ks[i]); }
    assert forall|i: int| 0 <= i < c.len() implies rt2.len(1, #[trigger] c[i]) >= 0 by { assert(c[i] == ks[j + 1 + i]); }
    tot_nonneg(rt2, 1, b);
    tot_nonneg(rt2, 1, c);
}
pub proof fn tot_changed2(a: T, ka: int, b: T, kb: int, xs: Seq<int>, j: int, e: int)
    requires
        no_dup(xs), 0 <= j < xs.len(),
        forall|i: int| 0 <= i < xs.len() ==> b.len(kb, #[trigger] xs[i]) == a.len(ka, xs[i]) + if i == j { e } else { 0 },
    ensures b.tot(kb, xs) == a.tot(ka, xs) + e,
    decreases xs.len(),
{
    let d = xs.drop_last();
    assert(xs[xs.len() - 1] == xs.last());
    assert forall|i: int| 0 <= i < d.len() implies b.len(kb, #[trigger] d[i]) == a.len(ka, d[i]) + if i == j { e } else { 0 } by { assert(d[i] == xs[i]); }
    if j == xs.len() - 1 {
        tot_same(a, ka, b, kb, d);
    } else {
        assert(no_dup(d)) by {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] != #[trigger] d[j] by { assert(d[i] == xs[i] && d[j] == xs[j]); }
        }
        tot_changed2(a, ka, b, kb, d, j, e);
    }
}
pub open spec fn step_like(t: T, t2: T, p: int, d: int) -> bool {
    &&& t2.lv[0] == t.lv[0] && t2.llen == t.llen && t2.h() == t.h() && t2.root() == t.root()
    &&& t2.nd.len() >= t.nd.len()
    &&& forall|z: int| 0 <= z < t.nd.len() ==> (#[trigger] t2.nd[z]).lev == t.nd[z].lev
    &&& t2.nd[p].len == t.nd[p].len + d && t2.nd[p].par == t.nd[p].par && t2.nd[p].lev == t.nd[p].lev
    &&& forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev > t.nd[p].lev ==> (#[trigger] t2.nd[z]) == t.nd[z]
}
pub proof fn mid_step(t: T, rt: T, x: int, n: Nd, d: int, rt2: T, rest: Option<Nd>, j: int) -> (t2: T)
    requires
        mid(t, rt, x, Some(n)), t.nd[x].par != nowhere(), owes(t, t.nd[x].par, d),
        t.nd.len() < nowhere(),
        ({
            let p = t.nd[x].par;
            let y = t.nd.len() as int;
            let rt1 = pushed(rt, n, p);
            &&& 0 <= j < t.nd[p].kids.len() && t.nd[p].kids[j] == x
            &&& rt2.nd.len() == y + 1 && rt2.lpar == rt1.lpar && rt2.llen == rt.llen
            &&& forall|z: int| 0 <= z <= y && z != p ==> #[trigger] rt2.nd[z] == rt1.nd[z]
            &&& rt2.nd[p].par == rt.nd[p].par && rt2.nd[p].lev == rt.nd[p].lev
            &&& joint(rt2, rt2.nd[p], rest, rt.nd[p].kids.insert(j + 1, y), t.nd[p].len + d)
        }),
    ensures
        ({
            let p = t.nd[x].par;
            &&& mid(t2, rt2, p, rest)
            &&& owes(t2, t2.nd[p].par, d)
            &&& step_like(t, t2, p, d)
            &&& forall|c: int, i: int| t.leaf_in(c) && #[trigger] kid_mid(t, rt, x, Some(n), c, i) ==> kid_mid(t2, rt2, p, rest, c, i)
        }),
{
    let p = t.nd[x].par;
    let y = t.nd.len() as int;
    mid_kids(t, rt, x, Some(n));
    let a = above_it(t, x);
    let k = a.0;
    let q = a.1;
    assert(a.3 == j);
    let m = rt.nd[x].kids.len() as int;
    let l1 = rt.nd[x].len;
    let l2 = n.len;
    let ks = t.nd[x].kids;
    assert(ks.take(m) =~= rt.nd[x].kids);
    assert(ks.skip(m) =~= n.kids);
    assert(can_split_at(t, k, q, m, j));
    split_nodes(t, k, q, m, l1, l2, j);
    split_ok(t, k, q, m, l1, l2, j);
    split_off(t, k, q, m, l1, l2, j);
    let t1 = t.split(k, q, m, l1, l2, j);
    let t2 = t1.with_len(p, t.nd[p].len + d);
    with_len_ok(t1, p, t.nd[p].len + d);
    let rt1 = pushed(rt, n, p);
    mid_exact(t, rt, x, n, d, rt);
    assert(like_all(t, rt, x)) by { reveal(mid); }
    // lengths of the halves
    let kx = rt.nd[x].lev - 1;
    assert forall|i: int| 0 <= i < ks.len() implies rt.len(kx, #[trigger] ks[i]) == t.len(k - 1, ks[i]) by {
        if k > 1 { assert(like(rt.nd[ks[i]], t.nd[ks[i]])); }
    }
    assert forall|i: int| 0 <= i < rt.nd[x].kids.len() implies rt.len(kx, #[trigger] rt.nd[x].kids[i]) == t.len(k - 1, rt.nd[x].kids[i]) by { assert(rt.nd[x].kids[i] == ks[i]); }
    assert forall|i: int| 0 <= i < n.kids.len() implies rt.len(kx, #[trigger] n.kids[i]) == t.len(k - 1, n.kids[i]) by { assert(n.kids[i] == ks[m + i]); }
    tot_same(rt, kx, t, k - 1, rt.nd[x].kids);
    tot_same(rt, kx, t, k - 1, n.kids);
    assert(t1.off(x) == 0 && t1.off(y) == 0 && t1.off(p) == d);
    assert(owes(t1, p, d)) by {
        assert forall|z: int| 0 <= z < t1.nd.len() implies #[trigger] t1.off(z) == if z == p { d } else { 0 } by {
            if z < y && z != x && z != p { assert(t.off(z) == 0); }
        }
    }
    assert(owes(t2, t2.nd[p].par, d)) by {
        assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.off(z) == if z == t2.nd[p].par { d } else { 0 } by {
            assert(t1.off(z) == if z == p { d } else { 0 });
        }
    }
    not_self(t1, p);
    assert(t2.nonneg()) by {
        assert forall|z: int| 0 <= z < t2.nd.len() implies (#[trigger] t2.nd[z]).len >= 0 by {
            if z < y && z != x && z != p { assert(t.nd[z].len >= 0); }
        }
    }
    // the picture
    assert forall|z: int| 0 <= z < t2.nd.len() && z != p implies like(rt2.nd[z], #[trigger] t2.nd[z]) by {
        assert(rt2.nd[z] == rt1.nd[z]);
        if z < y && z != x { assert(like(rt.nd[z], t.nd[z])); }
    }
    assert(rt2.lpar == t2.lpar) by {
        if k == 1 { assert(rt2.lpar =~= t2.lpar); }
    }
    assert forall|z: int| 0 <= z < t2.nd.len() implies (#[trigger] rt2.nd[z]).lev == if t2.nd[z].lev == 1 { 1int } else { 2 } by {
        reveal(mid);
        if z != p { assert(rt2.nd[z] == rt1.nd[z]); }
        if z < y { assert(rt.nd[z].lev == if t.nd[z].lev == 1 { 1int } else { 2 }); }
    }
    assert(mid(t2, rt2, p, rest)) by { reveal(mid); }
    assert(t2.lv[0] == t.lv[0]);
    assert(t2.root() == t.root());
    assert forall|z: int| 0 <= z < t.nd.len() && t.nd[z].lev > t.nd[p].lev implies (#[trigger] t2.nd[z]) == t.nd[z] by {
        if k > 1 && n.kids.contains(z) {
            let i = choose|i: int| 0 <= i < n.kids.len() && n.kids[i] == z;
            assert(ks[m + i] == z);
        }
        assert(z != x && z != p);
    }
    assert forall|c: int, i: int| t.leaf_in(c) && #[trigger] kid_mid(t, rt, x, Some(n), c, i) implies kid_mid(t2, rt2, p, rest, c, i) by {
        unshape(t);
        let z = t.lv[0][t.pos(c)];
        assert(z == c && 0 <= c < t.lpar.len());
        if k == 1 {
            if t.lpar[c] == x {
                if 0 <= i < rt.nd[x].kids.len() && rt.nd[x].kids[i] == c {
                    if n.kids.contains(c) {
                        let i2 = choose|i: int| 0 <= i < n.kids.len() && n.kids[i] == c;
                        no_dup_idx(ks, i, m + i2);
                    }
                    assert(t2.lpar[c] == x);
                } else {
                    assert(n.kids.contains(c));
                    assert(t2.lpar[c] == y);
                }
            } else {
                if n.kids.contains(c) {
                    let i2 = choose|i: int| 0 <= i < n.kids.len() && n.kids[i] == c;
                    assert(ks[m + i2] == c);
                    place_of(t, k, q);
                    assert(t.par(0, ks[m + i2]) == x);
                }
                assert(t2.lpar[c] == t.lpar[c]);
                assert(t.at(0, t.pos(c)));
                let r = locate(t, 0, t.pos(c));
                assert(t.nd[t.lpar[c]].lev == 1);
                assert(t.lpar[c] != p);
                assert(t2.nd[t.lpar[c]].kids == t.nd[t.lpar[c]].kids);
            }
        } else {
            assert(t.at(0, t.pos(c)));
            let r = locate(t, 0, t.pos(c));
            assert(t.nd[t.lpar[c]].lev == 1);
            assert(t2.lpar[c] == t.lpar[c]);
            assert(t2.nd[t.lpar[c]].kids == t.nd[t.lpar[c]].kids);
        }
    }
    t2
}
pub open spec fn like_all(t: T, rt: T, x: int) -> bool {
    forall|z: int| 0 <= z < t.nd.len() && z != x ==> like(rt.nd[z], #[trigger] t.nd[z])
}
pub proof fn not_self(t: T, x: int)
    requires t.shape(), t.all_in(), 0 <= x < t.nd.len(),
    ensures t.nd[x].par != x,
{
    if t.nd[x].par != nowhere() {
        let a = above_it(t, x);
    } else {
        unshape(t);
    }
}
/// The root, split, under a new one.
pub open spec fn root_pushed(t: T, rt: T, n: Nd) -> T {
    let x = t.root();
    pushed(pushed(rt, n, nowhere()), Nd { kids: seq![x, t.nd.len() as int], par: nowhere(), len: rt.nd[x].len + n.len, lev: 2 }, nowhere())
}
pub open spec fn root_grown(t: T, rt: T, n: Nd) -> T {
    t.grow(rt.nd[t.root()].kids.len() as int, rt.nd[t.root()].len, n.len)
}
pub open spec fn mid_top(t: T, rt: T, n: Nd, d: int) -> bool {
    mid(t, rt, t.root(), Some(n)) && owes(t, nowhere(), d) && t.nd.len() + 1 < nowhere()
}
proof fn mid_root_start(t: T, rt: T, n: Nd, d: int)
    requires mid_top(t, rt, n, d),
    ensures
        ({
            let k = t.h();
            let x = t.root();
            let m = rt.nd[x].kids.len() as int;
            let ks = t.nd[x].kids;
            &&& t.inode_at(k, 0) && t.lv[k][0] == x && t.nd[x].lev == k && k >= 1
            &&& ks.take(m) == rt.nd[x].kids && ks.skip(m) == n.kids
            &&& can_grow(t, m)
            &&& (n.lev == 1) == (k == 1)
            &&& t.tot(k - 1, rt.nd[x].kids) == rt.nd[x].len && rt.nd[x].len >= 0
            &&& t.tot(k - 1, n.kids) == n.len && n.len >= 0
            &&& k > 1 ==> !n.kids.contains(x)
            &&& no_dup(ks)
        }),
{
    let x = t.root();
    mid_kids(t, rt, x, Some(n));
    top(t);
    let k = t.h();
    let m = rt.nd[x].kids.len() as int;
    let ks = t.nd[x].kids;
    assert(ks.take(m) =~= rt.nd[x].kids);
    assert(ks.skip(m) =~= n.kids);
    assert(like_all(t, rt, x)) by { reveal(mid); }
    let kx = rt.nd[x].lev - 1;
    assert forall|i: int| 0 <= i < ks.len() implies rt.len(kx, #[trigger] ks[i]) == t.len(k - 1, ks[i]) && t.len(k - 1, ks[i]) >= 0 by {
        if k > 1 { assert(like(rt.nd[ks[i]], t.nd[ks[i]])); assert(t.nd[ks[i]].len >= 0); }
    }
    assert forall|i: int| 0 <= i < rt.nd[x].kids.len() implies rt.len(kx, #[trigger] rt.nd[x].kids[i]) == t.len(k - 1, rt.nd[x].kids[i]) && t.len(k - 1, rt.nd[x].kids[i]) >= 0 by { assert(rt.nd[x].kids[i] == ks[i]); }
    assert forall|i: int| 0 <= i < n.kids.len() implies rt.len(kx, #[trigger] n.kids[i]) == t.len(k - 1, n.kids[i]) && t.len(k - 1, n.kids[i]) >= 0 by { assert(n.kids[i] == ks[m + i]); }
    tot_same(rt, kx, t, k - 1, rt.nd[x].kids);
    tot_same(rt, kx, t, k - 1, n.kids);
    tot_nonneg(t, k - 1, rt.nd[x].kids);
    tot_nonneg(t, k - 1, n.kids);
    if k > 1 && n.kids.contains(x) {
        let i = choose|i: int| 0 <= i < n.kids.len() && n.kids[i] == x;
        assert(ks[m + i] == x);
    }
}
proof fn mid_root_lens(t: T, rt: T, n: Nd, d: int)
    requires mid_top(t, rt, n, d),
    ensures root_grown(t, rt, n).shape(), root_grown(t, rt, n).all_in(), root_grown(t, rt, n).lens_ok(), root_grown(t, rt, n).nonneg(),
{
    mid_root_start(t, rt, n, d);
    let x = t.root();
    let y = t.nd.len() as int;
    let m = rt.nd[x].kids.len() as int;
    let l1 = rt.nd[x].len;
    let l2 = n.len;
    grow_nodes(t, m, l1, l2);
    grow_ok(t, m, l1, l2);
    grow_off(t, m, l1, l2);
    let t2 = t.grow(m, l1, l2);
    assert(t.nd.len() <= nowhere());
    assert(t2.lens_ok()) by {
        assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.off(z) == 0 by {
            if z < y && z != x { assert(t.off(z) == 0); }
        }
    }
    assert(t.nonneg()) by { reveal(mid); }
    assert(t2.nonneg()) by {
        assert forall|z: int| 0 <= z < t2.nd.len() implies (#[trigger] t2.nd[z]).len >= 0 by {
            if z < y && z != x { assert(t.nd[z].len >= 0); }
        }
    }
}
proof fn mid_root_like(t: T, rt: T, n: Nd, d: int)
    requires mid_top(t, rt, n, d),
    ensures
        like_all(root_grown(t, rt, n), root_pushed(t, rt, n), nowhere()),
        root_pushed(t, rt, n).nd.len() == root_grown(t, rt, n).nd.len(),
        root_pushed(t, rt, n).lpar == root_grown(t, rt, n).lpar,
        root_pushed(t, rt, n).llen == root_grown(t, rt, n).llen,
{
    mid_root_start(t, rt, n, d);
    let x = t.root();
    let y = t.nd.len() as int;
    let k = t.h();
    let m = rt.nd[x].kids.len() as int;
    grow_nodes(t, m, rt.nd[x].len, n.len);
    let t2 = root_grown(t, rt, n);
    let rt2 = root_pushed(t, rt, n);
    assert(like_all(t, rt, x)) by { reveal(mid); }
    mid_kids(t, rt, x, Some(n));
    let xy = seq![x, y];
    assert(xy[0] == x && xy[1] == y);
    assert(xy.contains(x) && xy.contains(y));
    assert forall|z: int| 0 <= z < t2.nd.len() implies like(rt2.nd[z], #[trigger] t2.nd[z]) by {
        if z < y {
            if z != x { assert(like(rt.nd[z], t.nd[z])); assert(!xy.contains(z)); }
        }
    }
    if k == 1 { assert(rt2.lpar =~= t2.lpar); }
}
proof fn mid_root_kids(t: T, rt: T, n: Nd, d: int, c: int, i: int)
    requires mid_top(t, rt, n, d), t.leaf_in(c), kid_mid(t, rt, t.root(), Some(n), c, i),
    ensures root_grown(t, rt, n).kid_at(c, i),
{
    mid_root_start(t, rt, n, d);
    let x = t.root();
    let y = t.nd.len() as int;
    let k = t.h();
    let m = rt.nd[x].kids.len() as int;
    let ks = t.nd[x].kids;
    grow_nodes(t, m, rt.nd[x].len, n.len);
    let t2 = root_grown(t, rt, n);
    let z = t.lv[0][t.pos(c)];
    assert(z == c && 0 <= c < t.lpar.len()) by { unshape(t); }
    assert(t.at(0, t.pos(c)));
    let r = locate(t, 0, t.pos(c));
    assert(t.nd[t.lpar[c]].lev == 1);
    if k == 1 {
        assert(t.lv[1].len() == 1) by { top(t); }
        assert(t.lv[1][r.0] == x);
        if 0 <= i < rt.nd[x].kids.len() && rt.nd[x].kids[i] == c {
            assert(ks[i] == rt.nd[x].kids[i]) by { assert(ks.take(m)[i] == ks[i]); }
            if n.kids.contains(c) {
                let i2 = choose|i: int| 0 <= i < n.kids.len() && n.kids[i] == c;
                assert(ks.skip(m)[i2] == ks[m + i2]);
                no_dup_idx(ks, i, m + i2);
            }
            assert(t2.lpar[c] == x);
        } else {
            assert(n.kids.contains(c));
            assert(t2.lpar[c] == y);
        }
    } else {
        assert(t2.lpar[c] == t.lpar[c]);
        assert(t2.nd[t.lpar[c]].kids == t.nd[t.lpar[c]].kids);
    }
}
pub proof fn mid_root(t: T, rt: T, n: Nd, d: int)
    requires mid_top(t, rt, n, d),
    ensures
        ({
            let t2 = root_grown(t, rt, n);
            let rt2 = root_pushed(t, rt, n);
            &&& t2.shape() && t2.all_in() && t2.lens_ok() && t2.nonneg()
            &&& rt2.nd.len() == t2.nd.len() && rt2.lpar == t2.lpar && rt2.llen == t2.llen
            &&& like_all(t2, rt2, nowhere())
            &&& t2.root() == t.nd.len() + 1
            &&& t2.lv[0] == t.lv[0] && t2.llen == t.llen
            &&& rt.nd[t.root()].len >= 0 && n.len >= 0 && rt.nd[t.root()].len + n.len == t.nd[t.root()].len
            &&& forall|c: int, i: int| t.leaf_in(c) && #[trigger] kid_mid(t, rt, t.root(), Some(n), c, i) ==> t2.kid_at(c, i)
        }),
{
    mid_root_start(t, rt, n, d);
    mid_root_lens(t, rt, n, d);
    mid_root_like(t, rt, n, d);
    mid_kids(t, rt, t.root(), Some(n));
    let t2 = root_grown(t, rt, n);
    assert forall|c: int, i: int| t.leaf_in(c) && #[trigger] kid_mid(t, rt, t.root(), Some(n), c, i) implies t2.kid_at(c, i) by { mid_root_kids(t, rt, n, d, c, i); }
}
/// Nothing was split: only the length is off.
pub proof fn mid_none(t: T, rt: T, x: int)
    requires mid(t, rt, x, None),
    ensures
        t.shape(), t.all_in(), t.nonneg(), rt.nd.len() == t.nd.len(), rt.lpar == t.lpar, rt.llen == t.llen, like_all(t, rt, nowhere()),
        forall|c: int, i: int| t.leaf_in(c) && #[trigger] kid_mid(t, rt, x, None, c, i) ==> t.kid_at(c, i),
{
    reveal(mid);
}
