// What the operations do to the tree.
%use gt.vx
%raw
pub open spec fn adopt(s: Seq<int>, ks: Seq<int>, y: int) -> Seq<int> {
    Seq::new(s.len(), |i: int| if ks.contains(i) { y } else { s[i] })
}
pub open spec fn adopt_nd(s: Seq<Nd>, ks: Seq<int>, y: int) -> Seq<Nd> {
    Seq::new(s.len(), |i: int| if ks.contains(i) { Nd { par: y, ..s[i] } } else { s[i] })
}
impl T {
    /// A new leaf: the `j`-th child of the `q`-th inode of height 1.
    pub open spec fn with_leaf(self, q: int, j: int, len: int) -> T {
        let x = self.lv[1][q];
        let c = self.llen.len() as int;
        T {
            nd: self.nd.update(x, Nd { kids: self.nd[x].kids.insert(j, c), ..self.nd[x] }),
            lpar: self.lpar.push(x),
            llen: self.llen.push(len),
            lv: self.lv.update(0, self.lv[0].insert(self.st(1, q) + j, c)),
        }
    }
    pub open spec fn with_len(self, x: int, len: int) -> T {
        T { nd: self.nd.update(x, Nd { len, ..self.nd[x] }), ..self }
    }
    pub open spec fn with_leaf_len(self, c: int, len: int) -> T {
        T { llen: self.llen.update(c, len), ..self }
    }
    /// From the `m`-th on, the children of the `q`-th inode of height `k` become
    /// those of a new one, right after it; it's the `j`-th child of its parent.
    pub open spec fn split(self, k: int, q: int, m: int, l1: int, l2: int, j: int) -> T {
        let x = self.lv[k][q];
        let y = self.nd.len() as int;
        let p = self.nd[x].par;
        let ks = self.nd[x].kids;
        let nd1 = if k == 1 { self.nd } else { adopt_nd(self.nd, ks.skip(m), y) };
        let nd2 = nd1.update(x, Nd { kids: ks.take(m), len: l1, ..nd1[x] });
        let nd3 = nd2.update(p, Nd { kids: self.nd[p].kids.insert(j + 1, y), ..nd2[p] });
        T {
            nd: nd3.push(Nd { kids: ks.skip(m), par: p, len: l2, lev: k }),
            lpar: if k == 1 { adopt(self.lpar, ks.skip(m), y) } else { self.lpar },
            llen: self.llen,
            lv: self.lv.update(k, self.lv[k].insert(q + 1, y)),
        }
    }
    /// The same of the root, under a new one.
    pub open spec fn grow(self, m: int, l1: int, l2: int) -> T {
        let k = self.h();
        let x = self.root();
        let y = self.nd.len() as int;
        let z = y + 1;
        let ks = self.nd[x].kids;
        let nd1 = if k == 1 { self.nd } else { adopt_nd(self.nd, ks.skip(m), y) };
        let nd2 = nd1.update(x, Nd { kids: ks.take(m), len: l1, par: z, ..nd1[x] });
        T {
            nd: nd2.push(Nd { kids: ks.skip(m), par: z, len: l2, lev: k })
                .push(Nd { kids: seq![x, y], par: nowhere(), len: l1 + l2, lev: k + 1 }),
            lpar: if k == 1 { adopt(self.lpar, ks.skip(m), y) } else { self.lpar },
            llen: self.llen,
            lv: self.lv.update(k, seq![x, y]).push(seq![z]),
        }
    }
}

/// What shape() says.
pub proof fn unshape(t: T)
    requires t.shape(),
    ensures
        t.lv.len() >= 2,
        t.lv[t.lv.len() - 1].len() == 1,
        t.nd[t.root()].par == nowhere(),
        t.lpar.len() == t.llen.len(),
        t.nd.len() <= nowhere(), t.llen.len() <= nowhere(),
        forall|k: int| 1 <= k < t.lv.len() ==> flat(t.nd, #[trigger] t.lv[k]) == t.lv[k - 1],
        forall|k: int, q: int| t.inode_at(k, q) ==> t.node_ok(k, #[trigger] t.lv[k][q]),
        forall|k: int| 0 <= k < t.lv.len() ==> no_dup(#[trigger] t.lv[k]),
        forall|q: int| 0 <= q < t.lv[0].len() ==> 0 <= #[trigger] t.lv[0][q] < t.llen.len(),
{
    reveal(T::shape);
}

pub open spec fn can_leaf(t: T, q: int, j: int) -> bool {
    t.shape() && t.all_in() && t.inode_at(1, q) && 0 <= j <= t.nd[t.lv[1][q]].kids.len() && t.llen.len() < nowhere()
}
proof fn with_leaf_levels(t: T, q: int, j: int, len: int)
    requires can_leaf(t, q, j),
    ensures
        ({
            let t2 = t.with_leaf(q, j, len);
            &&& forall|k: int| 1 <= k < t2.lv.len() ==> flat(t2.nd, #[trigger] t2.lv[k]) == t2.lv[k - 1]
            &&& forall|k: int| 0 <= k < t2.lv.len() ==> no_dup(#[trigger] t2.lv[k])
        }),
        0 <= t.st(1, q) + j <= t.lv[0].len(),
{
    unshape(t);
    let t2 = t.with_leaf(q, j, len);
    let x = t.lv[1][q];
    let c = t.llen.len() as int;
    kids_slice(t, 1, q);
    assert forall|k: int| 1 <= k < t2.lv.len() implies flat(t2.nd, #[trigger] t2.lv[k]) == t2.lv[k - 1] by {
        let u = t.lv[k];
        assert forall|i: int| 0 <= i < u.len() implies t.node_ok(k, #[trigger] u[i]) by {
            assert(t.inode_at(k, i));
            assert(t.node_ok(k, t.lv[k][i]));
        }
        if k > 1 {
            flat_cong(t.nd, t2.nd, u);
            assert(t2.lv[k] == u && t2.lv[k - 1] == t.lv[k - 1]);
        } else {
            assert forall|i: int| 0 <= i < u.len() && i != q implies t.nd[#[trigger] u[i]].kids == t2.nd[u[i]].kids by {
                if u[i] == x { no_dup_idx(u, i, q); }
            }
            flat_more(t.nd, t2.nd, u, q, j, c);
        }
    }
    no_dup_insert(t.lv[0], t.st(1, q) + j, c);
    assert forall|k: int| 0 <= k < t2.lv.len() implies no_dup(#[trigger] t2.lv[k]) by {
        if k > 0 { assert(t2.lv[k] == t.lv[k]); }
    }
}
proof fn with_leaf_node(t: T, q: int, j: int, len: int, k: int, r: int)
    requires can_leaf(t, q, j), t.inode_at(k, r),
    ensures t.with_leaf(q, j, len).node_ok(k, t.lv[k][r]),
{
    let t2 = t.with_leaf(q, j, len);
    let x = t.lv[1][q];
    let z = t.lv[k][r];
    assert(t.lpar.len() == t.llen.len()) by { unshape(t); }
    kids_slice(t, 1, q);
    kids_slice(t, k, r);
    if z == x { assert(k == 1) by { place_of(t, 1, q); } }
    assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k - 1, #[trigger] t2.nd[z].kids[i]) == z by {
        if z == x {
            assert(k == 1);
            if i != j {
                let i0 = if i < j { i } else { i - 1 };
                assert(t2.nd[z].kids[i] == t.nd[z].kids[i0]);
                assert(t.par(0, t.nd[z].kids[i0]) == z);
            }
        } else {
            assert(t.par(k - 1, t.nd[z].kids[i]) == z);
        }
    }
}
proof fn with_leaf_off(t: T, q: int, j: int, len: int, z: int)
    requires can_leaf(t, q, j), 0 <= z < t.nd.len(),
    ensures t.with_leaf(q, j, len).off(z) == t.off(z) + if z == t.lv[1][q] { len } else { 0 },
{
    let t2 = t.with_leaf(q, j, len);
    let x = t.lv[1][q];
    let w = where_is(t, z);
    let ks = t.nd[z].kids;
    kids_slice(t, w.0, w.1);
    kids_slice(t, 1, q);
    assert forall|i: int| 0 <= i < ks.len() implies t.len(w.0 - 1, #[trigger] ks[i]) == t2.len(w.0 - 1, ks[i]) by {
        if w.0 > 1 { assert(t.node_ok(w.0 - 1, ks[i])); }
    }
    tot_cong(t, t2, w.0 - 1, ks);
    if z == x {
        tot_insert(t2, 0, ks, j, t.llen.len() as int);
    }
}
pub proof fn with_leaf_ok(t: T, q: int, j: int, len: int)
    requires can_leaf(t, q, j),
    ensures
        t.with_leaf(q, j, len).shape(),
        t.with_leaf(q, j, len).all_in(),
        forall|x: int| 0 <= x < t.nd.len() ==> #[trigger] t.with_leaf(q, j, len).off(x) == t.off(x) + if x == t.lv[1][q] { len } else { 0 },
        0 <= t.st(1, q) + j <= t.lv[0].len(),
{
    let t2 = t.with_leaf(q, j, len);
    let x = t.lv[1][q];
    with_leaf_levels(t, q, j, len);
    assert forall|k: int, r: int| t2.inode_at(k, r) implies t2.node_ok(k, #[trigger] t2.lv[k][r]) by {
        with_leaf_node(t, q, j, len, k, r);
        assert(t2.lv[k] == t.lv[k]);
    }
    top(t);
    place_of(t, 1, q);
    assert(t2.shape()) by { reveal(T::shape); }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.has(z) by {
        let w = where_is(t, z);
        assert(t2.lv[w.0][w.1] == z);
        assert(t2.inode_at(w.0, w.1));
    }
    assert forall|z: int| 0 <= z < t.nd.len() implies #[trigger] t2.off(z) == t.off(z) + if z == x { len } else { 0 } by {
        with_leaf_off(t, q, j, len, z);
    }
}
/// Another length for an inode: it's off by that much, and so is its parent.
pub proof fn with_len_ok(t: T, x: int, len: int)
    requires t.shape(), t.all_in(), 0 <= x < t.nd.len(),
    ensures
        t.with_len(x, len).shape(),
        t.with_len(x, len).all_in(),
        forall|z: int| 0 <= z < t.nd.len() ==> #[trigger] t.with_len(x, len).off(z) == t.off(z)
            + (if z == t.nd[x].par { len - t.nd[x].len } else { 0 }) - (if z == x { len - t.nd[x].len } else { 0 }),
{
    unshape(t);
    let t2 = t.with_len(x, len);
    let e = len - t.nd[x].len;
    assert forall|k: int| 1 <= k < t2.lv.len() implies flat(t2.nd, #[trigger] t2.lv[k]) == t2.lv[k - 1] by {
        let u = t.lv[k];
        assert forall|i: int| 0 <= i < u.len() implies t.nd[#[trigger] u[i]].kids == t2.nd[u[i]].kids by {
            assert(t.inode_at(k, i));
            assert(t.node_ok(k, t.lv[k][i]));
        }
        flat_cong(t.nd, t2.nd, u);
    }
    assert forall|k: int, r: int| t2.inode_at(k, r) implies t2.node_ok(k, #[trigger] t2.lv[k][r]) by {
        assert(t.inode_at(k, r));
        let z = t.lv[k][r];
        assert(t.node_ok(k, z));
        assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k - 1, #[trigger] t2.nd[z].kids[i]) == z by {
            assert(t.par(k - 1, t.nd[z].kids[i]) == z);
        }
    }
    top(t);
    assert(t2.shape()) by { reveal(T::shape); }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.has(z) by {
        let w = where_is(t, z);
        assert(t2.lv[w.0][w.1] == z);
        assert(t2.inode_at(w.0, w.1));
    }
    let wx = where_is(t, x);
    assert forall|z: int| 0 <= z < t.nd.len() implies #[trigger] t2.off(z) == t.off(z) + (if z == t.nd[x].par { e } else { 0 }) - (if z == x { e } else { 0 }) by {
        let w = where_is(t, z);
        let ks = t.nd[z].kids;
        kids_slice(t, w.0, w.1);
        not_top(t, wx.0, wx.1);
        if z == t.nd[x].par {
            let r = locate(t, wx.0, wx.1);
            assert(t.nd[z].kids[r.1] == x);
            assert(w.0 == wx.0 + 1);
            assert forall|i: int| 0 <= i < ks.len() implies t2.len(w.0 - 1, #[trigger] ks[i]) == t.len(w.0 - 1, ks[i]) + if i == r.1 { e } else { 0 } by {
                if i != r.1 { if ks[i] == x { no_dup_idx(ks, i, r.1); } }
            }
            tot_changed(t, t2, w.0 - 1, ks, r.1, e);
        } else {
            assert forall|i: int| 0 <= i < ks.len() implies t.len(w.0 - 1, #[trigger] ks[i]) == t2.len(w.0 - 1, ks[i]) by {
                assert(t.par(w.0 - 1, ks[i]) == z);
                if w.0 > 1 { assert(ks[i] != x); }
            }
            tot_cong(t, t2, w.0 - 1, ks);
        }
    }
}
/// Another length for a leaf: its parent is off.
pub proof fn with_leaf_len_ok(t: T, p: int, len: int)
    requires t.shape(), t.all_in(), 0 <= p < t.lv[0].len(),
    ensures
        t.with_leaf_len(t.lv[0][p], len).shape(),
        t.with_leaf_len(t.lv[0][p], len).all_in(),
        forall|z: int| 0 <= z < t.nd.len() ==> #[trigger] t.with_leaf_len(t.lv[0][p], len).off(z) == t.off(z)
            + (if z == t.lpar[t.lv[0][p]] { len - t.llen[t.lv[0][p]] } else { 0 }),
{
    unshape(t);
    let c = t.lv[0][p];
    let t2 = t.with_leaf_len(c, len);
    let e = len - t.llen[c];
    assert forall|k: int, r: int| t2.inode_at(k, r) implies t2.node_ok(k, #[trigger] t2.lv[k][r]) by {
        assert(t.inode_at(k, r));
        let z = t.lv[k][r];
        assert(t.node_ok(k, z));
        assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k - 1, #[trigger] t2.nd[z].kids[i]) == z by {
            assert(t.par(k - 1, t.nd[z].kids[i]) == z);
        }
    }
    top(t);
    assert(t2.shape()) by { reveal(T::shape); }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.has(z) by {
        let w = where_is(t, z);
        assert(t2.lv[w.0][w.1] == z);
        assert(t2.inode_at(w.0, w.1));
    }
    let r = locate(t, 0, p);
    assert forall|z: int| 0 <= z < t.nd.len() implies #[trigger] t2.off(z) == t.off(z) + (if z == t.lpar[c] { e } else { 0 }) by {
        let w = where_is(t, z);
        let ks = t.nd[z].kids;
        kids_slice(t, w.0, w.1);
        if z == t.lpar[c] {
            assert(w.0 == 1);
            assert forall|i: int| 0 <= i < ks.len() implies t2.len(0, #[trigger] ks[i]) == t.len(0, ks[i]) + if i == r.1 { e } else { 0 } by {
                if i != r.1 { if ks[i] == c { no_dup_idx(ks, i, r.1); } }
            }
            tot_changed(t, t2, 0, ks, r.1, e);
        } else {
            assert forall|i: int| 0 <= i < ks.len() implies t.len(w.0 - 1, #[trigger] ks[i]) == t2.len(w.0 - 1, ks[i]) by {
                assert(t.par(w.0 - 1, ks[i]) == z);
                if w.0 == 1 { assert(ks[i] != c); }
            }
            tot_cong(t, t2, w.0 - 1, ks);
        }
    }
}
/// The children of one inode, among those of its level.
pub proof fn flat_split(nd: Seq<Nd>, nd2: Seq<Nd>, up: Seq<int>, q: int, y: int)
    requires
        0 <= q < up.len(), no_dup(up),
        forall|i: int| 0 <= i < up.len() && i != q ==> nd[#[trigger] up[i]].kids == nd2[up[i]].kids,
        nd2[up[q]].kids + nd2[y].kids == nd[up[q]].kids,
    ensures flat(nd2, up.insert(q + 1, y)) == flat(nd, up),
{
    let x = up[q];
    let a = up.take(q);
    let b = up.skip(q + 1);
    flat_at(nd, up, q);
    assert(up.insert(q + 1, y) =~= a + (seq![x] + seq![y]) + b);
    flat_add(nd2, a + (seq![x] + seq![y]), b);
    flat_add(nd2, a, seq![x] + seq![y]);
    flat_add(nd2, seq![x], seq![y]);
    flat_one(nd2, x);
    flat_one(nd2, y);
    assert forall|i: int| 0 <= i < a.len() implies nd[#[trigger] a[i]].kids == nd2[a[i]].kids by { assert(a[i] == up[i]); }
    flat_cong(nd, nd2, a);
    assert forall|i: int| 0 <= i < b.len() implies nd[#[trigger] b[i]].kids == nd2[b[i]].kids by { assert(b[i] == up[q + 1 + i]); }
    flat_cong(nd, nd2, b);
}
/// A node's new sibling, among their parent's children.
pub proof fn flat_more(nd: Seq<Nd>, nd2: Seq<Nd>, up: Seq<int>, q: int, j: int, y: int)
    requires
        0 <= q < up.len(), no_dup(up), 0 <= j <= nd[up[q]].kids.len(),
        forall|i: int| 0 <= i < up.len() && i != q ==> nd[#[trigger] up[i]].kids == nd2[up[i]].kids,
        nd2[up[q]].kids == nd[up[q]].kids.insert(j, y),
    ensures
        flat(nd2, up) == flat(nd, up).insert(flat(nd, up.take(q)).len() + j, y),
        flat(nd, up.take(q)).len() + j <= flat(nd, up).len(),
{
    let x = up[q];
    let a = up.take(q);
    let b = up.skip(q + 1);
    flat_at(nd, up, q);
    flat_at(nd2, up, q);
    assert forall|i: int| 0 <= i < a.len() implies nd[#[trigger] a[i]].kids == nd2[a[i]].kids by { assert(a[i] == up[i]); }
    flat_cong(nd, nd2, a);
    assert forall|i: int| 0 <= i < b.len() implies nd[#[trigger] b[i]].kids == nd2[b[i]].kids by { assert(b[i] == up[q + 1 + i]); }
    flat_cong(nd, nd2, b);
    assert(flat(nd2, up) =~= flat(nd, up).insert(flat(nd, a).len() + j, y));
}
/// What a split needs.
pub open spec fn can_split(t: T, k: int, q: int, m: int) -> bool {
    t.shape() && t.all_in() && t.inode_at(k, q) && 0 < m < t.nd[t.lv[k][q]].kids.len() && t.nd.len() < nowhere()
}
pub open spec fn can_split_at(t: T, k: int, q: int, m: int, j: int) -> bool {
    let x = t.lv[k][q];
    &&& can_split(t, k, q, m)
    &&& k < t.h()
    &&& 0 <= j < t.nd[t.nd[x].par].kids.len()
    &&& t.nd[t.nd[x].par].kids[j] == x
}
/// Each inode after a split.
pub proof fn split_nodes(t: T, k: int, q: int, m: int, l1: int, l2: int, j: int)
    requires can_split_at(t, k, q, m, j),
    ensures
        ({
            let t2 = t.split(k, q, m, l1, l2, j);
            let x = t.lv[k][q];
            let y = t.nd.len() as int;
            let p = t.nd[x].par;
            let ks = t.nd[x].kids;
            &&& x != p && 0 <= x < t.nd.len() && 0 <= p < t.nd.len() && t.nd[p].lev == k + 1
            &&& t2.nd.len() == y + 1
            &&& t2.nd[y].kids == ks.skip(m) && t2.nd[y].par == p && t2.nd[y].len == l2 && t2.nd[y].lev == k
            &&& t2.nd[x].kids == ks.take(m) && t2.nd[x].par == p && t2.nd[x].len == l1 && t2.nd[x].lev == k
            &&& t2.nd[p].kids == t.nd[p].kids.insert(j + 1, y) && t2.nd[p].par == t.nd[p].par && t2.nd[p].len == t.nd[p].len && t2.nd[p].lev == k + 1
            &&& forall|i: int| 0 <= i < t.nd.len() && i != x && i != p ==> (#[trigger] t2.nd[i]).kids == t.nd[i].kids && t2.nd[i].len == t.nd[i].len && t2.nd[i].lev == t.nd[i].lev
            &&& forall|i: int| 0 <= i < t.nd.len() ==> (#[trigger] t2.nd[i]).par == if k > 1 && ks.skip(m).contains(i) { y } else { t.nd[i].par }
            &&& ks.take(m) + ks.skip(m) == ks
        }),
{
    let x = t.lv[k][q];
    let p = t.nd[x].par;
    let ks = t.nd[x].kids;
    kids_slice(t, k, q);
    let r = locate(t, k, q);
    place_of(t, k + 1, r.0);
    assert(ks.take(m) + ks.skip(m) =~= ks);
    assert forall|i: int| k > 1 && ks.skip(m).contains(i) implies t.nd[i].lev == k - 1 by {
        let e = choose|e: int| 0 <= e < ks.skip(m).len() && ks.skip(m)[e] == i;
        assert(ks[m + e] == i);
        assert(t.node_ok(k - 1, ks[m + e]));
    }
}
proof fn split_levels(t: T, k: int, q: int, m: int, l1: int, l2: int, j: int, k2: int)
    requires can_split_at(t, k, q, m, j), 1 <= k2 <= t.h(),
    ensures flat(t.split(k, q, m, l1, l2, j).nd, t.split(k, q, m, l1, l2, j).lv[k2]) == t.split(k, q, m, l1, l2, j).lv[k2 - 1],
{
    unshape(t);
    let t2 = t.split(k, q, m, l1, l2, j);
    let x = t.lv[k][q];
    let y = t.nd.len() as int;
    let p = t.nd[x].par;
    split_nodes(t, k, q, m, l1, l2, j);
    kids_slice(t, k, q);
    let r = locate(t, k, q);
    kids_slice(t, k + 1, r.0);
    no_dup_idx(t.nd[p].kids, j, r.1);
    let up = t.lv[k2];
    assert forall|i: int| 0 <= i < up.len() implies t.node_ok(k2, #[trigger] up[i]) by { assert(t.inode_at(k2, i)); assert(t.node_ok(k2, t.lv[k2][i])); }
    if k2 == k {
        assert forall|i: int| 0 <= i < up.len() && i != q implies t.nd[#[trigger] up[i]].kids == t2.nd[up[i]].kids by {
            if up[i] == x { no_dup_idx(up, i, q); }
        }
        flat_split(t.nd, t2.nd, up, q, y);
    } else if k2 == k + 1 {
        assert forall|i: int| 0 <= i < up.len() && i != r.0 implies t.nd[#[trigger] up[i]].kids == t2.nd[up[i]].kids by {
            if up[i] == p { no_dup_idx(up, i, r.0); }
        }
        flat_more(t.nd, t2.nd, up, r.0, j + 1, y);
    } else {
        flat_cong(t.nd, t2.nd, up);
    }
}
proof fn split_node_new(t: T, k: int, q: int, m: int, l1: int, l2: int, j: int)
    requires can_split_at(t, k, q, m, j),
    ensures t.split(k, q, m, l1, l2, j).node_ok(k, t.nd.len() as int),
{
    let t2 = t.split(k, q, m, l1, l2, j);
    let z = t.nd.len() as int;
    let ks = t.nd[t.lv[k][q]].kids;
    split_nodes(t, k, q, m, l1, l2, j);
    kids_slice(t, k, q);
    unshape(t);
    assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k - 1, #[trigger] t2.nd[z].kids[i]) == z by {
        assert(ks.skip(m)[i] == ks[m + i]);
        assert(ks.skip(m).contains(ks[m + i]));
        if k > 1 { assert(t.node_ok(k - 1, ks[m + i])); } else { assert(0 <= ks[m + i] < t.llen.len()); }
    }
}
proof fn split_node(t: T, k: int, q: int, m: int, l1: int, l2: int, j: int, k2: int, q0: int)
    requires can_split_at(t, k, q, m, j), t.inode_at(k2, q0),
    ensures t.split(k, q, m, l1, l2, j).node_ok(k2, t.lv[k2][q0]),
{
    let t2 = t.split(k, q, m, l1, l2, j);
    let x = t.lv[k][q];
    let y = t.nd.len() as int;
    let p = t.nd[x].par;
    let ks = t.nd[x].kids;
    let z = t.lv[k2][q0];
    split_nodes(t, k, q, m, l1, l2, j);
    kids_slice(t, k, q);
    kids_slice(t, k2, q0);
    unshape(t);
    let zs = t.nd[z].kids;
    assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k2 - 1, #[trigger] t2.nd[z].kids[i]) == z by {
        let w = t2.nd[z].kids[i];
        if z == p && i == j + 1 {
        } else {
            let i0 = if z == p && i > j { i - 1 } else { i };
            assert(w == zs[i0]);
            assert(t.par(k2 - 1, zs[i0]) == z);
            if k2 > 1 { assert(t.node_ok(k2 - 1, zs[i0])); }
            if (k2 == k || (k > 1 && k2 > 1)) && ks.skip(m).contains(w) {
                let e = choose|e: int| 0 <= e < ks.skip(m).len() && ks.skip(m)[e] == w;
                assert(ks[m + e] == w);
                assert(t.par(k - 1, ks[m + e]) == x);
                if k > 1 { assert(t.node_ok(k - 1, ks[m + e])); }
                assert(k2 == k && z == x);
                no_dup_idx(ks, m + e, i0);
                assert(false);
            }
        }
    }
}
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn split_ok(t: T, k: int, q: int, m: int, l1: int, l2: int, j: int)
    requires can_split_at(t, k, q, m, j),
    ensures
        t.split(k, q, m, l1, l2, j).shape(),
        t.split(k, q, m, l1, l2, j).all_in(),
{
    let t2 = t.split(k, q, m, l1, l2, j);
    let y = t.nd.len() as int;
    let ks = t.nd[t.lv[k][q]].kids;
    split_nodes(t, k, q, m, l1, l2, j);
    kids_slice(t, k, q);
    assert forall|k2: int| 1 <= k2 < t2.lv.len() implies flat(t2.nd, #[trigger] t2.lv[k2]) == t2.lv[k2 - 1] by {
        split_levels(t, k, q, m, l1, l2, j, k2);
    }
    assert forall|k2: int, q2: int| t2.inode_at(k2, q2) implies t2.node_ok(k2, #[trigger] t2.lv[k2][q2]) by {
        if k2 == k && q2 == q + 1 {
            split_node_new(t, k, q, m, l1, l2, j);
        } else {
            let q0 = if k2 == k && q2 > q { q2 - 1 } else { q2 };
            assert(t2.lv[k2][q2] == t.lv[k2][q0]);
            split_node(t, k, q, m, l1, l2, j, k2, q0);
        }
    }
    assert forall|i: int| 0 <= i < t.lv[k].len() implies #[trigger] t.lv[k][i] != y by { place_of(t, k, i); }
    assert(no_dup(t.lv[k]) && t.lpar.len() == t.llen.len() && t.lv.len() >= 2) by { unshape(t); }
    no_dup_insert(t.lv[k], q + 1, y);
    assert forall|k2: int| 0 <= k2 < t2.lv.len() implies no_dup(#[trigger] t2.lv[k2]) by {
        if k2 != k { assert(t2.lv[k2] == t.lv[k2]); unshape(t); }
    }
    top(t);
    assert(t2.root() == t.root());
    assert(t2.nd[t2.root()].par == nowhere()) by {
        if k > 1 && ks.skip(m).contains(t.root()) {
            let e = choose|e: int| 0 <= e < ks.skip(m).len() && ks.skip(m)[e] == t.root();
            assert(ks[m + e] == t.root());
            assert(t.node_ok(k - 1, ks[m + e]));
        }
    }
    assert forall|q: int| 0 <= q < t2.lv[0].len() implies 0 <= #[trigger] t2.lv[0][q] < t2.llen.len() by { unshape(t); }
    assert(t2.shape()) by { unshape(t); reveal(T::shape); }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.has(z) by {
        if z == y {
            assert(t2.lv[k][q + 1] == y);
            assert(t2.inode_at(k, q + 1));
        } else {
            let w = where_is(t, z);
            let q0 = if w.0 == k && w.1 > q { w.1 + 1 } else { w.1 };
            assert(t2.lv[w.0][q0] == z);
            assert(t2.inode_at(w.0, q0));
        }
    }
}
pub proof fn split_off(t: T, k: int, q: int, m: int, l1: int, l2: int, j: int)
    requires can_split_at(t, k, q, m, j),
    ensures
        ({
            let t2 = t.split(k, q, m, l1, l2, j);
            let x = t.lv[k][q];
            let y = t.nd.len() as int;
            let p = t.nd[x].par;
            &&& t2.off(x) == t.tot(k - 1, t.nd[x].kids.take(m)) - l1
            &&& t2.off(y) == t.tot(k - 1, t.nd[x].kids.skip(m)) - l2
            &&& t2.off(p) == t.off(p) + l1 + l2 - t.nd[x].len
            &&& forall|z: int| 0 <= z < t.nd.len() && z != x && z != p ==> #[trigger] t2.off(z) == t.off(z)
        }),
{
    let t2 = t.split(k, q, m, l1, l2, j);
    let x = t.lv[k][q];
    let y = t.nd.len() as int;
    let p = t.nd[x].par;
    let ks = t.nd[x].kids;
    split_nodes(t, k, q, m, l1, l2, j);
    kids_slice(t, k, q);
    let r = locate(t, k, q);
    kids_slice(t, k + 1, r.0);
    no_dup_idx(t.nd[p].kids, j, r.1);
    let a = ks.take(m);
    assert forall|i: int| 0 <= i < a.len() implies t.len(k - 1, #[trigger] a[i]) == t2.len(k - 1, a[i]) by {
        assert(a[i] == ks[i]);
        if k > 1 { assert(t.node_ok(k - 1, ks[i])); }
    }
    tot_cong(t, t2, k - 1, a);
    let b = ks.skip(m);
    assert forall|i: int| 0 <= i < b.len() implies t.len(k - 1, #[trigger] b[i]) == t2.len(k - 1, b[i]) by {
        assert(b[i] == ks[m + i]);
        if k > 1 { assert(t.node_ok(k - 1, ks[m + i])); }
    }
    tot_cong(t, t2, k - 1, b);
    let ps = t.nd[p].kids;
    tot_insert(t2, k, ps, j + 1, y);
    assert forall|i: int| 0 <= i < ps.len() implies t2.len(k, #[trigger] ps[i]) == t.len(k, ps[i]) + if i == j { l1 - t.nd[x].len } else { 0 } by {
        assert(t.node_ok(k, ps[i]));
        if i != j && ps[i] == x { no_dup_idx(ps, i, j); }
    }
    tot_changed(t, t2, k, ps, j, l1 - t.nd[x].len);
    assert forall|z: int| 0 <= z < t.nd.len() && z != x && z != p implies #[trigger] t2.off(z) == t.off(z) by {
        let w = where_is(t, z);
        kids_slice(t, w.0, w.1);
        let zs = t.nd[z].kids;
        assert forall|i: int| 0 <= i < zs.len() implies t.len(w.0 - 1, #[trigger] zs[i]) == t2.len(w.0 - 1, zs[i]) by {
            assert(t.par(w.0 - 1, zs[i]) == z);
            if w.0 > 1 { assert(t.node_ok(w.0 - 1, zs[i])); assert(zs[i] != x); }
        }
        tot_cong(t, t2, w.0 - 1, zs);
    }
}

pub open spec fn can_grow(t: T, m: int) -> bool {
    t.shape() && t.all_in() && 0 < m < t.nd[t.root()].kids.len() && t.nd.len() + 1 < nowhere()
}
pub proof fn grow_nodes(t: T, m: int, l1: int, l2: int)
    requires can_grow(t, m),
    ensures
        ({
            let t2 = t.grow(m, l1, l2);
            let k = t.h();
            let x = t.root();
            let y = t.nd.len() as int;
            let ks = t.nd[x].kids;
            &&& 0 <= x < t.nd.len()
            &&& t2.nd.len() == y + 2
            &&& t2.nd[y].kids == ks.skip(m) && t2.nd[y].par == y + 1 && t2.nd[y].len == l2 && t2.nd[y].lev == k
            &&& t2.nd[y + 1].kids == seq![x, y] && t2.nd[y + 1].par == nowhere() && t2.nd[y + 1].len == l1 + l2 && t2.nd[y + 1].lev == k + 1
            &&& t2.nd[x].kids == ks.take(m) && t2.nd[x].par == y + 1 && t2.nd[x].len == l1 && t2.nd[x].lev == k
            &&& forall|i: int| 0 <= i < t.nd.len() && i != x ==> (#[trigger] t2.nd[i]).kids == t.nd[i].kids && t2.nd[i].len == t.nd[i].len && t2.nd[i].lev == t.nd[i].lev
            &&& forall|i: int| 0 <= i < t.nd.len() && i != x ==> (#[trigger] t2.nd[i]).par == if k > 1 && ks.skip(m).contains(i) { y } else { t.nd[i].par }
            &&& ks.take(m) + ks.skip(m) == ks
        }),
{
    top(t);
    let k = t.h();
    let ks = t.nd[t.root()].kids;
    kids_slice(t, k, 0);
    assert(ks.take(m) + ks.skip(m) =~= ks);
    assert forall|i: int| k > 1 && ks.skip(m).contains(i) implies t.nd[i].lev == k - 1 by {
        let e = choose|e: int| 0 <= e < ks.skip(m).len() && ks.skip(m)[e] == i;
        assert(ks[m + e] == i);
        assert(t.node_ok(k - 1, ks[m + e]));
    }
}
proof fn grow_levels(t: T, m: int, l1: int, l2: int, k2: int)
    requires can_grow(t, m), 1 <= k2 <= t.h() + 1,
    ensures flat(t.grow(m, l1, l2).nd, t.grow(m, l1, l2).lv[k2]) == t.grow(m, l1, l2).lv[k2 - 1],
{
    let t2 = t.grow(m, l1, l2);
    let k = t.h();
    let x = t.root();
    let y = t.nd.len() as int;
    grow_nodes(t, m, l1, l2);
    top(t);
    kids_slice(t, k, 0);
    assert(flat(t.nd, t.lv[if k2 <= k { k2 } else { k }]) == t.lv[(if k2 <= k { k2 } else { k }) - 1] && no_dup(t.lv[if k2 <= k { k2 } else { k }])) by { unshape(t); }
    if k2 == k + 1 {
        flat_one(t2.nd, y + 1);
        assert(t2.lv[k2] =~= seq![y + 1]);
    } else if k2 == k {
        let up = t.lv[k];
        assert(up =~= seq![x]);
        flat_split(t.nd, t2.nd, up, 0, y);
        assert(up.insert(1, y) =~= seq![x, y]);
    } else {
        let up = t.lv[k2];
        assert forall|i: int| 0 <= i < up.len() implies t.nd[#[trigger] up[i]].kids == t2.nd[up[i]].kids by { assert(t.inode_at(k2, i)); place_of(t, k2, i); not_top(t, k2, i); }
        flat_cong(t.nd, t2.nd, up);
    }
}
proof fn grow_node_new(t: T, m: int, l1: int, l2: int)
    requires can_grow(t, m),
    ensures t.grow(m, l1, l2).node_ok(t.h(), t.nd.len() as int),
{
    let t2 = t.grow(m, l1, l2);
    let k = t.h();
    let z = t.nd.len() as int;
    let ks = t.nd[t.root()].kids;
    grow_nodes(t, m, l1, l2);
    top(t);
    kids_slice(t, k, 0);
    assert(t.lpar.len() == t.llen.len()) by { unshape(t); }
    assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k - 1, #[trigger] t2.nd[z].kids[i]) == z by {
        assert(ks.skip(m)[i] == ks[m + i]);
        assert(ks.skip(m).contains(ks[m + i]));
        if k > 1 { assert(t.node_ok(k - 1, ks[m + i])); } else { assert(0 <= ks[m + i] < t.llen.len()); }
    }
}
proof fn grow_node_root(t: T, m: int, l1: int, l2: int)
    requires can_grow(t, m),
    ensures t.grow(m, l1, l2).node_ok(t.h() + 1, t.nd.len() as int + 1),
{
    let t2 = t.grow(m, l1, l2);
    let k = t.h();
    let z = t.nd.len() as int;
    grow_nodes(t, m, l1, l2);
    top(t);
    assert forall|i: int| 0 <= i < t2.nd[z + 1].kids.len() implies t2.par(k, #[trigger] t2.nd[z + 1].kids[i]) == z + 1 by {
        if i == 0 { assert(t2.nd[z + 1].kids[i] == t.root()); } else { assert(t2.nd[z + 1].kids[i] == z); }
    }
}
proof fn grow_node(t: T, m: int, l1: int, l2: int, k2: int, q0: int)
    requires can_grow(t, m), t.inode_at(k2, q0),
    ensures t.grow(m, l1, l2).node_ok(k2, t.lv[k2][q0]),
{
    let t2 = t.grow(m, l1, l2);
    let k = t.h();
    let x = t.root();
    let y = t.nd.len() as int;
    let ks = t.nd[x].kids;
    let z = t.lv[k2][q0];
    grow_nodes(t, m, l1, l2);
    top(t);
    kids_slice(t, k, 0);
    kids_slice(t, k2, q0);
    not_top(t, k2, q0);
    unshape(t);
    let zs = t.nd[z].kids;
    assert forall|i: int| 0 <= i < t2.nd[z].kids.len() implies t2.par(k2 - 1, #[trigger] t2.nd[z].kids[i]) == z by {
        let w = t2.nd[z].kids[i];
        assert(w == zs[i]);
        assert(t.par(k2 - 1, zs[i]) == z);
        if k2 > 1 { assert(t.node_ok(k2 - 1, zs[i])); }
        if (k2 == k || (k > 1 && k2 > 1)) && ks.skip(m).contains(w) {
            let e = choose|e: int| 0 <= e < ks.skip(m).len() && ks.skip(m)[e] == w;
            assert(ks[m + e] == w);
            assert(t.par(k - 1, ks[m + e]) == x);
            if k > 1 { assert(t.node_ok(k - 1, ks[m + e])); }
            assert(k2 == k && z == x);
            no_dup_idx(ks, m + e, i);
            assert(false);
        }
    }
}
pub proof fn grow_ok(t: T, m: int, l1: int, l2: int)
    requires can_grow(t, m),
    ensures
        t.grow(m, l1, l2).shape(),
        t.grow(m, l1, l2).all_in(),
{
    let t2 = t.grow(m, l1, l2);
    let k = t.h();
    let y = t.nd.len() as int;
    grow_nodes(t, m, l1, l2);
    top(t);
    assert forall|k2: int| 1 <= k2 < t2.lv.len() implies flat(t2.nd, #[trigger] t2.lv[k2]) == t2.lv[k2 - 1] by {
        grow_levels(t, m, l1, l2, k2);
    }
    assert forall|k2: int, q2: int| t2.inode_at(k2, q2) implies t2.node_ok(k2, #[trigger] t2.lv[k2][q2]) by {
        if k2 == k + 1 {
            grow_node_root(t, m, l1, l2);
        } else if k2 == k && q2 == 1 {
            grow_node_new(t, m, l1, l2);
        } else {
            assert(t2.lv[k2][q2] == t.lv[k2][q2]);
            grow_node(t, m, l1, l2, k2, q2);
        }
    }
    assert forall|k2: int| 0 <= k2 < t2.lv.len() implies no_dup(#[trigger] t2.lv[k2]) by {
        if k2 < k { assert(t2.lv[k2] == t.lv[k2]); unshape(t); }
    }
    assert forall|q: int| 0 <= q < t2.lv[0].len() implies 0 <= #[trigger] t2.lv[0][q] < t2.llen.len() by { unshape(t); }
    assert(t2.shape()) by { unshape(t); reveal(T::shape); }
    assert forall|z: int| 0 <= z < t2.nd.len() implies #[trigger] t2.has(z) by {
        if z == y {
            assert(t2.lv[k][1] == y);
            assert(t2.inode_at(k, 1));
        } else if z == y + 1 {
            assert(t2.lv[k + 1][0] == z);
            assert(t2.inode_at(k + 1, 0));
        } else {
            let w = where_is(t, z);
            assert(t2.lv[w.0][w.1] == z);
            assert(t2.inode_at(w.0, w.1));
        }
    }
}
pub proof fn grow_off(t: T, m: int, l1: int, l2: int)
    requires can_grow(t, m),
    ensures
        ({
            let t2 = t.grow(m, l1, l2);
            let k = t.h();
            let x = t.root();
            let y = t.nd.len() as int;
            &&& t2.off(x) == t.tot(k - 1, t.nd[x].kids.take(m)) - l1
            &&& t2.off(y) == t.tot(k - 1, t.nd[x].kids.skip(m)) - l2
            &&& t2.off(y + 1) == 0
            &&& forall|z: int| 0 <= z < t.nd.len() && z != x ==> #[trigger] t2.off(z) == t.off(z)
        }),
{
    let t2 = t.grow(m, l1, l2);
    let k = t.h();
    let x = t.root();
    let y = t.nd.len() as int;
    let ks = t.nd[x].kids;
    grow_nodes(t, m, l1, l2);
    top(t);
    kids_slice(t, k, 0);
    let a = ks.take(m);
    assert forall|i: int| 0 <= i < a.len() implies t.len(k - 1, #[trigger] a[i]) == t2.len(k - 1, a[i]) by {
        assert(a[i] == ks[i]);
        if k > 1 { assert(t.node_ok(k - 1, ks[i])); }
    }
    tot_cong(t, t2, k - 1, a);
    let b = ks.skip(m);
    assert forall|i: int| 0 <= i < b.len() implies t.len(k - 1, #[trigger] b[i]) == t2.len(k - 1, b[i]) by {
        assert(b[i] == ks[m + i]);
        if k > 1 { assert(t.node_ok(k - 1, ks[m + i])); }
    }
    tot_cong(t, t2, k - 1, b);
    assert(seq![x, y] =~= seq![x] + seq![y]);
    tot_add(t2, k, seq![x], seq![y]);
    tot_one(t2, k, x);
    tot_one(t2, k, y);
    assert forall|z: int| 0 <= z < t.nd.len() && z != x implies #[trigger] t2.off(z) == t.off(z) by {
        let w = where_is(t, z);
        kids_slice(t, w.0, w.1);
        let zs = t.nd[z].kids;
        assert forall|i: int| 0 <= i < zs.len() implies t.len(w.0 - 1, #[trigger] zs[i]) == t2.len(w.0 - 1, zs[i]) by {
            assert(t.par(w.0 - 1, zs[i]) == z);
            if w.0 > 1 { assert(t.node_ok(w.0 - 1, zs[i])); assert(zs[i] != x); }
        }
        tot_cong(t, t2, w.0 - 1, zs);
    }
}
