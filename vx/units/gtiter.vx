// The tree's iterators.
%use gtins.vx
%file gtree.rs
%item struct Leaves #[verifier::reject_recursive_types(L)]
%item struct Siblings ghost:p:Ghost<int> #[verifier::reject_recursive_types(L)]
%raw
/// `slice::split_first`
pub fn vx_split_first<'a, T>(s: &'a [T]) -> (r: Option<(&'a T, &'a [T])>)
    ensures
        s@.len() == 0 ==> r is None,
        s@.len() > 0 ==> r is Some && *r->Some_0.0 == s@[0] && r->Some_0.1@ == s@.skip(1),
{
    if s.len() == 0 { None } else { Some((&s[0], vstd::slice::slice_subrange(s, 1, s.len()))) }
}
/// `&slice[at..]`
pub fn vx_from<'a, T>(s: &'a [T], at: usize) -> (r: &'a [T])
    requires at <= s@.len(),
    ensures r@ == s@.skip(at as int),
{
    vstd::slice::slice_subrange(s, at, s.len())
}
/// `Vec::last_mut`, when only the second of each pair is written.
#[verifier::external_body]
pub fn vx_last_mut<'a, A, B>(v: &'a mut Vec<(A, B)>) -> (r: Option<(&'a A, &'a mut B)>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> {
            &&& r is Some && *r->Some_0.0 == old(v)@.last().0 && *r->Some_0.1 == old(v)@.last().1
            &&& final(v)@ == old(v)@.update(old(v)@.len() - 1, (old(v)@.last().0, *final(r->Some_0.1)))
        },
{ v.last_mut().map(|x| (&x.0, &mut x.1)) }

impl<'a, const N: usize, L: Leaf> Siblings<'a, N, L> {
    /// The leaves that are left.
    pub open spec fn ok(self, p: int) -> bool {
        let t = self.gtree.t@;
        &&& self.gtree.sound()
        &&& 0 <= p && p + self.leaf_idxs@.len() <= t.lv[0].len()
        &&& forall|j: int| 0 <= j < self.leaf_idxs@.len() ==> (#[trigger] self.leaf_idxs@[j]).idx == t.lv[0][p + j]
    }
    pub open spec fn wf(self) -> bool { self.ok(self.p@) }
    pub open spec fn place(self) -> int { self.p@ }
    pub open spec fn upto(self) -> int { self.p@ + self.leaf_idxs@.len() }
    pub open spec fn leaves(self) -> Seq<Lf<L>> { self.gtree.leaves() }
}
%impl Siblings<'a,N,L>
%fn new
%sub Self { gtree, leaf_idxs: $x } =>> Self { gtree, leaf_idxs: $x, p: Ghost(at) }
%sub &siblings[idx..] =>> vx_from(siblings, idx)
    requires gtree.sound(), gtree.t@.leaf_in(start_idx.idx as int),
    ensures r.gtree == gtree, r.wf(), r.place() == gtree.t@.pos(start_idx.idx as int) + if INCLUDE_START { 0int } else { 1 },
%at start
    let ghost t = gtree.t@;
    let ghost at = t.pos(start_idx.idx as int) + if INCLUDE_START { 0int } else { 1 };
    let ghost p = t.pos(start_idx.idx as int);
    let ghost place = at_leaf(*gtree, p);
    proof {
        let v = at_node(*gtree, t.lpar[start_idx.idx as int]);
        assert(gtree.inodes@[t.lpar[start_idx.idx as int]].kids()[place.1] == start_idx.idx);
        below(*gtree, 1, place.0, place.1);
    }
%at end
    proof {
        let x = t.lpar[start_idx.idx as int];
        assert(t.kid_at(start_idx.idx as int, child_idx as int));
        assert forall|j: int| 0 <= j < vx_tail.leaf_idxs@.len() implies (#[trigger] vx_tail.leaf_idxs@[j]).idx == t.lv[0][t.st(1, place.0) + idx + j] by {
            assert(vx_tail.leaf_idxs@[j] == siblings@[idx + j]);
            below(*gtree, 1, place.0, idx + j);
        }
        assert(t.shape()) by { reveal(Gtree::sound); }
        kids_slice(t, 1, place.0);
    }
%impl Iterator for Siblings<'a,N,L>
%header impl<'a, const N: usize, L: Leaf> Siblings<'a, N, L>
%fn next
%sigsub Self::Item =>> (LeafIdx<L>, &'a L)
%sub self.leaf_idxs.split_first() =>> vx_split_first(self.leaf_idxs)
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).gtree == old(self).gtree, final(self).upto() == old(self).upto(),
        final(self).place() == old(self).place() + if r is Some { 1int } else { 0 },
        r is None <==> old(self).place() == old(self).upto(),
        r matches Some(x) ==> old(self).place() < old(self).leaves().len() && x.0 == old(self).leaves()[old(self).place()].idx && *x.1 == old(self).leaves()[old(self).place()].v,
%at start
    let ghost s0 = self.leaf_idxs@;
    let ghost p = self.p@;
    proof {
        if s0.len() > 0 {
            assert(s0[0].idx == self.gtree.t@.lv[0][p + 0]);
            let w = at_leaf(*self.gtree, p);
            idx_by(*self.gtree, p, s0[0]);
        }
        leaf_facts(*self.gtree);
    }
%at end
    proof { self.p@ = p + 1; }
%raw
pub type Path = Seq<(InodeIdx, ChildIdx)>;
impl T {
    /// The place of the `i`-th inode of a path from the root.
    pub open spec fn q(self, path: Path, i: int) -> int
        decreases i,
    {
        if i <= 0 { 0 } else { self.st(self.h() - i + 1, self.q(path, i - 1)) + path[i - 1].1 }
    }
    pub open spec fn path_at(self, path: Path, i: int) -> bool {
        &&& self.inode_at(self.h() - i, self.q(path, i)) && path[i].0.0 == self.lv[self.h() - i][self.q(path, i)]
        &&& path[i].1 < self.nd[path[i].0.0 as int].kids.len()
    }
    #[verifier::opaque]
    pub open spec fn path_ok(self, path: Path) -> bool {
        &&& path.len() <= self.h() - 1
        &&& forall|i: int| 0 <= i < path.len() ==> #[trigger] self.path_at(path, i)
    }
    /// Where a path leads.
    pub open spec fn to(self, path: Path) -> int { self.q(path, path.len() as int) }
    pub open spec fn leads(self, path: Path) -> bool { self.inode_at(self.h() - path.len(), self.to(path)) }
    pub open spec fn from(self, path: Path) -> int { self.down(self.h() - path.len(), self.to(path)) }
    pub open spec fn upto(self, path: Path) -> int { self.down(self.h() - path.len(), self.to(path) + 1) }
}
pub proof fn q_same(t: T, a: Path, b: Path, i: int)
    requires i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j],
    ensures t.q(a, i) == t.q(b, i),
    decreases i,
{
    if i > 0 { q_same(t, a, b, i - 1); }
}
pub proof fn no_path(t: T)
    requires t.h() >= 1,
    ensures t.path_ok(Seq::empty()), t.to(Seq::empty()) == 0,
{
    reveal(T::path_ok);
}
/// The last of a path.
pub proof fn path_last<const N: usize, L: Leaf>(g: Gtree<N, L>, path: Path)
    requires g.sound(), g.t@.path_ok(path), path.len() > 0,
    ensures
        ({
            let t = g.t@;
            let x = path.last().0.0 as int;
            &&& x < g.inodes@.len() && !g.inodes@[x].has_leaves && g.inodes@[x].fits()
            &&& g.inodes@[x].num_children == t.nd[x].kids.len()
            &&& path.last().1 < t.nd[x].kids.len()
            &&& t.leads(path)
            &&& t.lv[t.h() - path.len()][t.to(path)] == g.inodes@[x].kid(path.last().1 as int)
            &&& 0 <= g.inodes@[x].kid(path.last().1 as int) < g.inodes@.len()
        }),
        path.len() < g.t@.h(),
{
    reveal(T::path_ok);
    let t = g.t@;
    let m = path.len() as int;
    let x = path.last().0.0 as int;
    assert(t.path_at(path, m - 1));
    below(g, t.h() - m + 1, t.q(path, m - 1), path.last().1 as int);
    let w = at_node(g, x);
    one_at(g, w.0, w.1, t.h() - m + 1, t.q(path, m - 1));
}
pub proof fn path_next<const N: usize, L: Leaf>(g: Gtree<N, L>, a: Path, b: Path)
    requires
        g.sound(), g.t@.path_ok(a), a.len() > 0, b == a.update(a.len() - 1, b.last()), b.last().0 == a.last().0, b.last().1 == a.last().1 + 1,
        b.last().1 < g.t@.nd[b.last().0.0 as int].kids.len(),
    ensures g.t@.path_ok(b), g.t@.leads(b), g.t@.from(b) == g.t@.upto(a),
{
    path_last(g, a);
    let t = g.t@;
    let m = a.len() as int;
    assert(t.path_ok(b)) by {
        reveal(T::path_ok);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] t.path_at(b, i) by {
            assert(t.path_at(a, i));
            q_same(t, a, b, i);
        }
    }
    q_same(t, a, b, m - 1);
    path_last(g, b);
}
pub proof fn path_pop<const N: usize, L: Leaf>(g: Gtree<N, L>, a: Path, b: Path)
    requires
        g.sound(), g.t@.path_ok(a), a.len() > 0, b.len() == a.len() - 1, forall|i: int| 0 <= i < b.len() ==> b[i] == a[i],
        a.last().1 + 1 == g.t@.nd[a.last().0.0 as int].kids.len(),
    ensures g.t@.path_ok(b), g.t@.leads(b), g.t@.upto(b) == g.t@.upto(a),
{
    let t = g.t@;
    let m = a.len() as int;
    reveal(T::path_ok);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] t.path_at(b, i) by {
        assert(t.path_at(a, i));
        q_same(t, a, b, i);
    }
    q_same(t, a, b, m - 1);
    assert(t.path_at(a, m - 1));
    below(g, t.h() - m + 1, t.q(a, m - 1), a.last().1 as int);
}
pub proof fn path_push<const N: usize, L: Leaf>(g: Gtree<N, L>, a: Path, x: InodeIdx)
    requires
        g.sound(), g.t@.path_ok(a), g.t@.leads(a), a.len() < g.t@.h() - 1, x.0 == g.t@.lv[g.t@.h() - a.len()][g.t@.to(a)],
    ensures
        ({
            let b = a.push((x, 0));
            &&& g.t@.path_ok(b) && g.t@.leads(b) && g.t@.from(b) == g.t@.from(a)
            &&& x.0 < g.inodes@.len() && g.t@.nd[x.0 as int].kids.len() > 0 && g.t@.lv[g.t@.h() - b.len()][g.t@.to(b)] == g.t@.nd[x.0 as int].kids[0]
        }),
{
    let t = g.t@;
    let b = a.push((x, 0usize));
    let m = a.len() as int;
    reveal(T::path_ok);
    assert(t.shape() && t.nd.len() == g.inodes@.len()) by { reveal(Gtree::sound); }
    place_of(t, t.h() - m, t.to(a));
    let w = at_node(g, x.0 as int);
    below(g, t.h() - m, t.to(a), 0);
    q_same(t, a, b, m);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] t.path_at(b, i) by {
        if i < m { assert(t.path_at(a, i)); }
        q_same(t, a, b, i);
    }
}
/// An inode where a path leads, and whether it's leaves that are its children.
pub proof fn path_node<const N: usize, L: Leaf>(g: Gtree<N, L>, a: Path, x: int)
    requires g.sound(), g.t@.leads(a), x == g.t@.lv[g.t@.h() - a.len()][g.t@.to(a)],
    ensures
        0 <= x < g.inodes@.len(), g.inodes@[x].fits(), g.inodes@[x].has_leaves == (g.t@.h() - a.len() == 1),
        g.inodes@[x].num_children == g.t@.nd[x].kids.len(), g.inodes@[x].num_children > 0,
        forall|j: int| 0 <= j < g.t@.nd[x].kids.len() ==> #[trigger] g.inodes@[x].kid(j) == g.t@.nd[x].kids[j] && 0 <= g.inodes@[x].kid(j),
        !g.inodes@[x].has_leaves ==> forall|j: int| 0 <= j < g.t@.nd[x].kids.len() ==> #[trigger] g.inodes@[x].kid(j) < g.inodes@.len(),
        g.inodes@[x].has_leaves ==> {
            &&& g.t@.upto(a) == g.t@.from(a) + g.t@.nd[x].kids.len() && 0 <= g.t@.from(a) && g.t@.upto(a) <= g.t@.lv[0].len()
            &&& forall|j: int| 0 <= j < g.t@.nd[x].kids.len() ==> #[trigger] g.inodes@[x].kid(j) == g.t@.lv[0][g.t@.from(a) + j]
        },
{
    let t = g.t@;
    let k = t.h() - a.len();
    assert(t.shape() && t.nd.len() == g.inodes@.len()) by { reveal(Gtree::sound); }
    place_of(t, k, t.to(a));
    let w = at_node(g, x);
    one_at(g, w.0, w.1, k, t.to(a));
    if k == 1 {
        unshape_st(t, t.to(a));
        unshape_st(t, t.to(a) + 1);
        kids_slice(t, 1, t.to(a));
        assert forall|j: int| 0 <= j < t.nd[x].kids.len() implies #[trigger] g.inodes@[x].kid(j) == t.lv[0][t.from(a) + j] by { below(g, 1, t.to(a), j); }
    }
}
impl<'a, const N: usize, L: Leaf> Leaves<'a, N, L> {
    pub open spec fn leaves(self) -> Seq<Lf<L>> { self.gtree.leaves() }
    pub open spec fn wf(self) -> bool { self.ok() }
    /// The place of the next one.
    pub open spec fn place(self) -> int {
        let t = self.gtree.t@;
        if self.path@.len() == t.h() - 1 { t.upto(self.path@) - self.current_leaves@.len() } else { t.lv[0].len() as int }
    }
    pub open spec fn ok(self) -> bool {
        let t = self.gtree.t@;
        &&& self.gtree.sound() && t.path_ok(self.path@) && t.leads(self.path@)
        &&& self.path@.len() < t.h() - 1 ==> self.path@.len() == 0 && self.current_leaves@.len() == 0
        &&& 0 <= self.place() && self.place() + self.current_leaves@.len() <= t.lv[0].len()
        &&& forall|j: int| 0 <= j < self.current_leaves@.len() ==> (#[trigger] self.current_leaves@[j]).idx == t.lv[0][self.place() + j]
    }
}
%impl Iterator for Leaves<'a,N,L>
%header impl<'a, const N: usize, L: Leaf> Leaves<'a, N, L>
%fn next
%sigsub Self::Item =>> (LeafIdx<L>, &'a L)
%sub self.current_leaves.split_first() =>> vx_split_first(self.current_leaves)
%sub self.path.last_mut() =>> vx_last_mut(&mut self.path)
%sub self.next() =>> self.vx_next()
%rename vx_next
    requires old(self).ok(),
    ensures
        final(self).ok(), final(self).gtree == old(self).gtree,
        final(self).place() == old(self).place() + if r is Some { 1int } else { 0 },
        r is None <==> old(self).place() == old(self).gtree.t@.lv[0].len(),
        r matches Some(x) ==> old(self).place() < old(self).gtree.leaves().len() && x.0 == old(self).gtree.leaves()[old(self).place()].idx && *x.1 == old(self).gtree.leaves()[old(self).place()].v,
    decreases if old(self).current_leaves@.len() == 0 { 1int } else { 0 },
%at start
    let ghost g = *self.gtree;
    let ghost t = self.gtree.t@;
    let ghost p = self.place();
    let ghost mut path = self.path@;
    proof {
        above(g);
        if self.current_leaves@.len() > 0 {
            let c = self.current_leaves@[0];
            assert(c.idx == t.lv[0][p + 0]);
            let w = at_leaf(g, p);
            idx_by(g, p, c);
        }
        leaf_facts(g);
    }
%loop 0
    invariant_except_break
        path == self.path@, t.path_ok(path), t.leads(path), t.upto(path) == p,
    invariant
        self.current_leaves@.len() == 0, *self.gtree == g, self.gtree == old(self).gtree, g.sound(), t == g.t@,
    ensures
        t.path_ok(self.path@), t.leads(self.path@),
        self.path@.len() == 0 ==> t.upto(self.path@) == p,
        self.path@.len() > 0 ==> t.from(self.path@) == p,
    decreases self.path@.len(),
%at loopstart 0
    proof { path_last(g, path); }
%before break
    proof { path_next(g, path, self.path@); }
%at loopend 0
    proof { path_pop(g, path, self.path@); path = self.path@; }
%before let (last_idx
    proof {
        above(g);
        if self.path@.len() > 0 { path_last(g, self.path@); }
    }
%loop 1
    invariant_except_break
        self.current_leaves@.len() == 0,
    invariant
        *self.gtree == g, self.gtree == old(self).gtree, g.sound(), t == g.t@,
        t.path_ok(self.path@), t.leads(self.path@), t.from(self.path@) == p,
        idx.0 == t.lv[t.h() - self.path@.len()][t.to(self.path@)],
    ensures
        self.ok(), self.place() == p, self.current_leaves@.len() > 0, self.gtree == old(self).gtree,
    decreases t.h() - self.path@.len(),
%at loopstart 1
    let ghost x = idx.0 as int;
    let ghost a = self.path@;
    proof { path_node(g, a, x); reveal(T::path_ok); }
%after idx = inode_idxs
    proof { path_push(g, a, InodeIdx(x as usize)); }
%raw
impl T {
    /// `q`, of a path from another inode.
    pub open spec fn qf(self, k: int, q: int, path: Path, i: int) -> int
        decreases i,
    {
        if i <= 0 { q } else { self.st(k - i + 1, self.qf(k, q, path, i - 1)) + path[i - 1].1 }
    }
    pub open spec fn from_at(self, k: int, q: int, path: Path, i: int) -> bool {
        &&& self.inode_at(k - i, self.qf(k, q, path, i)) && path[i].0.0 == self.lv[k - i][self.qf(k, q, path, i)]
        &&& path[i].1 < self.nd[path[i].0.0 as int].kids.len()
    }
    pub open spec fn from_ok(self, k: int, q: int, path: Path) -> bool {
        forall|i: int| 0 <= i < path.len() ==> #[trigger] self.from_at(k, q, path, i)
    }
}
proof fn qf_up(t: T, k: int, q: int, u: (int, int), a: Path, b: Path, i: int)
    requires b.len() == a.len() + 1, forall|j: int| 0 <= j < a.len() ==> b[j + 1] == a[j], b[0].1 == u.1, t.st(k + 1, u.0) + u.1 == q, 0 <= i <= a.len(),
    ensures t.qf(k + 1, u.0, b, i + 1) == t.qf(k, q, a, i),
    decreases i,
{
    if i > 0 {
        qf_up(t, k, q, u, a, b, i - 1);
        assert(b[i] == a[i - 1]);
    } else {
        assert(t.qf(k + 1, u.0, b, 0) == u.0);
    }
}
proof fn qf_root(t: T, a: Path, i: int)
    ensures t.qf(t.h(), 0, a, i) == t.q(a, i),
    decreases i,
{
    if i > 0 { qf_root(t, a, i - 1); }
}
/// A path, from the parent of the inode it was from.
proof fn path_up<const N: usize, L: Leaf>(g: Gtree<N, L>, k: int, q: int, a: Path, b: Path, p0: int) -> (r: (int, int))
    requires
        g.sound(), g.t@.inode_at(k, q), k < g.t@.h(), g.t@.from_ok(k, q, a), g.t@.qf(k, q, a, a.len() as int) == p0,
        b.len() == a.len() + 1, forall|j: int| 0 <= j < a.len() ==> b[j + 1] == a[j],
        b[0].0.0 == g.t@.nd[g.t@.lv[k][q]].par, b[0].1 < g.t@.nd[b[0].0.0 as int].kids.len(), g.t@.nd[b[0].0.0 as int].kids[b[0].1 as int] == g.t@.lv[k][q],
    ensures g.t@.inode_at(k + 1, r.0), g.t@.lv[k + 1][r.0] == b[0].0.0, g.t@.from_ok(k + 1, r.0, b), g.t@.qf(k + 1, r.0, b, b.len() as int) == p0,
{
    let t = g.t@;
    let u = up(g, k, q);
    qf_up(t, k, q, u, a, b, a.len() as int);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] t.from_at(k + 1, u.0, b, i) by {
        if i > 0 {
            assert(t.from_at(k, q, a, i - 1));
            assert(b[i] == a[i - 1]);
            qf_up(t, k, q, u, a, b, i - 1);
        } else {
            assert(t.qf(k + 1, u.0, b, 0) == u.0);
        }
    }
    u
}
proof fn path_done(t: T, a: Path)
    requires t.from_ok(t.h(), 0, a), a.len() <= t.h() - 1,
    ensures t.path_ok(a), t.to(a) == t.qf(t.h(), 0, a, a.len() as int),
{
    reveal(T::path_ok);
    qf_root(t, a, a.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] t.path_at(a, i) by {
        assert(t.from_at(t.h(), 0, a, i));
        qf_root(t, a, i);
    }
}
%impl Leaves<'a,N,L>
%fn new
%sub &leaves[idx..] =>> vx_from(leaves, idx)
    requires gtree.sound(), gtree.t@.leaf_in(start_idx.idx as int),
    ensures r.ok(), r.gtree == gtree, r.place() == gtree.t@.pos(start_idx.idx as int) + if INCLUDE_START { 0int } else { 1 },
%at start
    let ghost t = gtree.t@;
    let ghost c = start_idx.idx as int;
    let ghost p = t.pos(c);
    let ghost place = at_leaf(*gtree, p);
    let ghost i0 = if INCLUDE_START { 0int } else { 1 };
    let ghost mut k = 1int;
    let ghost mut q = place.0;
    proof {
        above(*gtree);
        let v = at_node(*gtree, t.lpar[c]);
        assert(gtree.inodes@[t.lpar[c]].kids()[place.1] == c);
        below(*gtree, 1, place.0, place.1);
        unshape_st(t, place.0);
        unshape_st(t, place.0 + 1);
        assert(t.shape()) by { reveal(Gtree::sound); }
        kids_slice(t, 1, place.0);
        assert forall|j: int| 0 <= j < t.nd[t.lpar[c]].kids.len() implies #[trigger] t.nd[t.lpar[c]].kids[j] == t.lv[0][t.st(1, place.0) + j] by { below(*gtree, 1, place.0, j); }
    }
%before let mut path
    proof {
        assert(current_leaves@.len() == t.nd[t.lpar[c]].kids.len() - place.1 - i0);
        assert(forall|j: int| 0 <= j < current_leaves@.len() ==> (#[trigger] current_leaves@[j]).idx == t.nd[t.lpar[c]].kids[place.1 + i0 + j]);
    }
%loop 0
    invariant
        gtree.sound(), t == gtree.t@, t.inode_at(k, q), t.lv[k][q] == inode_idx.0, inode_idx.0 < gtree.inodes@.len(),
        path@.len() == k - 1, t.from_ok(k, q, path@), t.qf(k, q, path@, k - 1) == place.0,
    decreases t.h() - k,
%at loopstart 0
    let ghost a = path@;
    let ghost w = at_node(*gtree, inode_idx.0 as int);
    proof {
        above(*gtree);
        one_at(*gtree, k, q, w.0, w.1);
    }
%after path.insert
    proof {
        let r = path_up(*gtree, k, q, a, path@, place.0);
        q = r.0;
        k = k + 1;
    }
%at end
    proof {
        let w = at_node(*gtree, inode_idx.0 as int);
        one_at(*gtree, k, q, w.0, w.1);
        path_done(t, path@);
    }
%file gtree.rs
%impl Gtree<ARITY,L>
%fn leaves
%rename vx_leaves_of
    requires self.sound(), self.t@.leaf_in(start_leaf.idx as int),
    ensures r.ok(), r.gtree == self, r.place() == self.t@.pos(start_leaf.idx as int) + if INCLUDE_START { 0int } else { 1 },
%fn leaves_from_first
    requires self.sound(),
    ensures r.ok(), r.gtree == self, r.place() == 0,
%at start
    proof { above(*self); let w = at_leaf(*self, 0); }
%fn siblings
    requires self.sound(), self.t@.leaf_in(leaf_idx.idx as int),
    ensures r.gtree == self, r.wf(), r.place() == self.t@.pos(leaf_idx.idx as int) + if INCLUDE_LEAF { 0int } else { 1 },
