// What the units that use Fragments assume of them is so: each contract of
// fragments.vx, taken from there as it's written.
%import gttwo.vx
%import editrun.vx
%raw
impl<L> LeafIdx<L> {
    pub open spec fn nowhere() -> LeafIdx<L> { lx(usize::MAX) }
}
%import fragvoc.vx
%file run_indices.rs
%item const FRAGMENTS_INLINE
%item enum Fragments -Clone -PartialEq
%item struct Array -Clone -PartialEq
%raw
/// The one number of parts there's memory for without a tree.
pub const INLINE: usize = FRAGMENTS_INLINE;
%file gtree.rs
%trait Join
%header pub trait Join: Sized
%fn append
    ensures r == Err::<(), Self>(other), *final(self) == *old(self),
%fn prepend
    ensures r == Err::<(), Self>(other), *final(self) == *old(self),
%file run_indices.rs
%impl gtree::Join for Fragment
%header impl Join for Fragment
%impl gtree::Leaf for Fragment
%header impl Fragment
%fn len
%rename leaf_len
    ensures r == self.len,
%raw
impl VxLen for Fragment {
    open spec fn vlen(&self) -> int { self.len as int }
}
impl Leaf for Fragment {
    open spec fn can_join(a: Fragment, b: Fragment) -> bool { false }
    open spec fn joined(a: Fragment, b: Fragment) -> Fragment { a }
    proof fn joins(a: Fragment, b: Fragment) {}
    fn append(&mut self, o: Fragment) -> (r: Result<(), Fragment>) { Join::append(self, o) }
    fn prepend(&mut self, o: Fragment) -> (r: Result<(), Fragment>) { Join::prepend(self, o) }
    fn len(&self) -> (r: usize) { self.leaf_len() }
}
pub open spec fn frs(ls: Seq<Lf<Fragment>>) -> Seq<Fragment> { Seq::new(ls.len(), |i: int| ls[i].v) }
pub proof fn frs_cum(ls: Seq<Lf<Fragment>>, k: int)
    requires 0 <= k <= ls.len(),
    ensures cum(frs(ls), k) == vsum(ls, k),
    decreases k,
{
    if k > 0 { frs_cum(ls, k - 1); assert(frs(ls)[k - 1] == ls[k - 1].v); }
}
/// What a tree of fragments is, as fragments.
pub proof fn frs_of<const ARITY: usize>(g: Gtree<ARITY, Fragment>)
    requires g.sound(),
    ensures
        g.leaves().len() > 0, g.root_idx.0 < g.inodes@.len(), frs(g.leaves()).len() == g.leaves().len(), g.leaves().len() == g.t@.lv[0].len(),
        g.t@.nd[g.t@.root()].len == total(frs(g.leaves())), total(frs(g.leaves())) <= usize::MAX,
        forall|k: int| 0 <= k <= g.leaves().len() ==> #[trigger] cum(frs(g.leaves()), k) == vsum(g.leaves(), k),
{
    leaf_facts(g);
    at_root(g);
    leaf_len(g, 0);
    assert forall|k: int| 0 <= k <= g.leaves().len() implies #[trigger] cum(frs(g.leaves()), k) == vsum(g.leaves(), k) by { frs_cum(g.leaves(), k); }
}
impl<const N: usize> Array<N> {
    pub open spec fn view(&self) -> Seq<Fragment> { self.fragments@.take(self.len as int) }
    pub open spec fn ok(&self) -> bool {
        &&& 0 < self.len <= N
        &&& self.total_len == total(self@)
        &&& frs_ok(self@)
    }
}
impl Fragments<INLINE> {
    pub open spec fn view(&self) -> Seq<Fragment> {
        match self {
            Fragments::Array(a) => a@,
            Fragments::Gtree(g) => frs(g.leaves()),
        }
    }
    pub open spec fn wf(&self) -> bool {
        match self {
            Fragments::Array(a) => a.ok(),
            Fragments::Gtree(g) => g.sound() && g.cursor is None && frs_ok(frs(g.leaves())),
        }
    }
    pub open spec fn blank(&self) -> bool {
        match self {
            Fragments::Array(a) => a.len == 0 && a.total_len == 0,
            Fragments::Gtree(g) => false,
        }
    }
%contract fragments.vx facts
    {}
}
pub proof fn inline_handled()
    ensures INLINE >= 4, INLINE % 2 == 0,
{}
pub proof fn push_cum(f: Seq<Fragment>, x: Fragment)
    ensures
        total(f.push(x)) == total(f) + x.len,
        f.len() == 0 || frs_ok(f) && total(f) > 0 && x.len > 0 && total(f) + x.len <= usize::MAX ==> frs_ok(f.push(x)),
{
    let g = f.push(x);
    cum_same(f, g, f.len() as int);
    if f.len() == 1 { assert(total(f) == f[0].len) by { reveal_with_fuel(cum, 2); } }
    if f.len() > 0 && frs_ok(f) && total(f) > 0 && x.len > 0 {
        assert forall|j: int| 0 <= j < g.len() implies (#[trigger] g[j]).len > 0 by { if j < f.len() { assert(g[j] == f[j]); } }
    }
}
pub proof fn only_in(f: Seq<Fragment>, at: int, k: int)
    requires fr_in(f, at, k),
    ensures forall|j: int| #[trigger] fr_in(f, at, j) ==> j == k, forall|j: int| #[trigger] fr_at(f, at, j) ==> j == k, fr_at(f, at, k), 0 < at < total(f),
{
    assert forall|j: int| #[trigger] fr_in(f, at, j) implies j == k by { fr_one(f, at, j, k); }
    assert forall|j: int| #[trigger] fr_at(f, at, j) implies j == k by { fr_one(f, at, j, k); }
    cum_le(f, 0, k);
    cum_le(f, k + 1, f.len() as int);
}
/// Another leaf.
pub proof fn other_fr<const ARITY: usize>(g: Gtree<ARITY, Fragment>, p: int, q: int)
    requires g.sound(), 0 <= p < g.leaves().len(), 0 <= q < g.leaves().len(), p != q,
    ensures
        ({
            let c = g.t@.lv[0][q];
            &&& g.t@.lv[0][p] != c && g.t@.leaf_in(c) && g.t@.pos(c) == q && 0 <= c < g.lnodes@.len()
            &&& frs(g.leaves())[q] == g.lnodes@[c].value && g.leaves()[q] == lf(lx(c as usize), g.lnodes@[c].value)
        }),
{
    frs_of(g);
    let w = at_leaf(g, q);
    sound_parts(g);
    unshape(g.t@);
    if g.t@.lv[0][p] == g.t@.lv[0][q] { no_dup_idx(g.t@.lv[0], p, q); }
}
pub proof fn cum_take(f: Seq<Fragment>, n: int, k: int)
    requires 0 <= k <= n <= f.len(),
    ensures cum(f.take(n), k) == cum(f, k),
{
    cum_same(f.take(n), f, k);
}
/// The last is longer.
pub proof fn more_last(f: Seq<Fragment>, n: int)
    requires frs_ok(f), total(f) + n <= usize::MAX, n >= 0,
    ensures ({
        let k = f.len() - 1;
        let g = f.update(k, Fragment { len: (f[k].len + n) as usize, idx: f[k].idx });
        frs_ok(g) && total(g) == total(f) + n && f[k].len + n <= usize::MAX
    }),
{
    let k = f.len() - 1;
    let g = f.update(k, Fragment { len: (f[k].len + n) as usize, idx: f[k].idx });
    cum_same(f, g, k);
    cum_le(f, 0, k);
    assert forall|j: int| f.len() > 1 && 0 <= j < g.len() implies (#[trigger] g[j]).len > 0 by { assert(f[j].len > 0); }
}
pub proof fn in_order_frs(s: Seq<Fragment>)
    requires s.len() <= usize::MAX,
    ensures frs(in_order(s)) == s, vsum(in_order(s), s.len() as int) == total(s),
{
    assert(frs(in_order(s)) =~= s);
    frs_cum(in_order(s), s.len() as int);
}
/// The leaf that's found for an offset.
pub proof fn found_fr<const ARITY: usize>(g: Gtree<ARITY, Fragment>, c: int, at: int)
    requires
        g.sound(), g.t@.leaf_in(c), at <= g.t@.pre(g.t@.pos(c) + 1), g.t@.pre(g.t@.pos(c)) < at || (at == 0 && g.t@.pos(c) == 0),
    ensures
        ({
            let p = g.t@.pos(c);
            &&& 0 <= p < g.leaves().len() && g.leaves().len() == g.t@.lv[0].len() && g.t@.lv[0][p] == c && 0 <= c < g.lnodes@.len()
            &&& fr_at(frs(g.leaves()), at, p)
            &&& cum(frs(g.leaves()), p) == g.t@.pre(p)
            &&& frs(g.leaves())[p] == g.lnodes@[c].value
            &&& frs(g.leaves())[p].len <= cum(frs(g.leaves()), p + 1)
        }),
{
    let p = g.t@.pos(c);
    sound_parts(g);
    pos_in(g.t@, c);
    leaf_len(g, p);
    frs_of(g);
    cum_le(frs(g.leaves()), 0, p);
}
pub proof fn parts(s: Fragments<INLINE>)
    requires s.wf() || s.blank(),
    ensures
        s.wf() ==> frs_ok(s@) && s@.len() > 0,
        s is Gtree ==> ({
            let g = s->Gtree_0;
            &&& g.sound() && g.cursor is None && s@ == frs(g.leaves())
            &&& s@.len() > 0 && g.root_idx.0 < g.inodes@.len() && s@.len() == g.leaves().len() && g.leaves().len() == g.t@.lv[0].len()
            &&& g.t@.nd[g.t@.root()].len == total(s@) && total(s@) <= usize::MAX
            &&& forall|k: int| 0 <= k <= g.leaves().len() ==> #[trigger] cum(s@, k) == vsum(g.leaves(), k)
        }),
        s is Array ==> s@ == s->Array_0@ && s->Array_0.total_len == total(s@),
        s is Array && s->Array_0.len == INLINE ==> frs(in_order(s@)) == s@ && vsum(in_order(s@), s@.len() as int) == total(s@) && s@.len() == INLINE && s->Array_0.ok(),
{
    inline_handled();
    if s is Gtree { frs_of(s->Gtree_0); }
    else if s->Array_0.len == INLINE { in_order_frs(s->Array_0@); }
}
%file run_indices.rs
%impl Array<N>
%fn append
    requires
        old(self).len < N, old(self).len == 0 && old(self).total_len == 0 || old(self).ok() && fragment.len > 0 && total(old(self)@) > 0 && total(old(self)@) + fragment.len <= usize::MAX,
    ensures final(self).ok(), final(self)@ == old(self)@.push(fragment),
%at start
    let ghost f = self@;
    proof {
        push_cum(f, fragment);
        if f.len() == 1 { assert(total(f) == f[0].len) by { reveal_with_fuel(cum, 2); } }
    }
%at end
    proof { assert(self@ =~= f.push(fragment)); }
%fn extend_last
    requires old(self).ok(), total(old(self)@) + extend_by <= usize::MAX,
    ensures
        final(self).ok(),
        final(self)@ == old(self)@.update(old(self)@.len() - 1,
            Fragment { len: (old(self)@.last().len + extend_by) as usize, idx: old(self)@.last().idx }),
%at start
    let ghost f = self@;
    proof { more_last(f, extend_by as int); }
%at end
    proof { assert(self@ =~= f.update(f.len() - 1, Fragment { len: (f.last().len + extend_by) as usize, idx: f.last().idx })); }
%fn fragments
    requires self.len <= N,
    ensures r@ == self@,
%at end
    proof { assert(vx_tail@ =~= self@); }
%fn fragments_mut
    requires old(self).len <= N,
    ensures
        r@ == old(self)@, final(self).len == old(self).len, final(self).total_len == old(self).total_len,
        final(r)@.len() == old(self).len ==> final(self)@ == final(r)@,
%fn idx_at_offset
%forloops
%sub self.fragments().iter().enumerate() =>> vx_enum(self.fragments())
    requires self.ok(), at_offset <= total(self@),
    ensures fr_at(self@, at_offset as int, r.0 as int), r.1 == cum(self@, r.0 as int),
%loop 0
    invariant
        self.ok(), vx_it.s@ == self@, vx_it.i <= self.len, offset == cum(self@, vx_it.i as int), self@.len() == self.len, at_offset <= total(self@),
        vx_it.i > 0 ==> offset < at_offset,
    ensures vx_it.i == self.len, offset == cum(self@, self.len as int), offset < at_offset,
    decreases self.len - vx_it.i,
%before offset +=
    proof { cum_le(self@, 0, idx as int); cum_le(self@, idx + 1, self.len as int); }
%fn fragment_at_offset
    requires
        self.ok(), at_offset < total(self@) || (at_offset == total(self@) && bias == AnchorBias::Left),
    ensures
        exists|j: int| 0 <= j < self@.len() && #[trigger] self@[j] == *r && (
            if bias == AnchorBias::Left { fr_at(self@, at_offset as int, j) }
            else { cum(self@, j) <= at_offset < cum(self@, j + 1) }),
%after let fragment
    proof {
        cum_le(self@, 0, idx as int);
        cum_le(self@, idx + 1, self.len as int);
        assert(self@[idx as int] == *fragment);
        if idx + 1 < self.len { assert(self@[idx + 1] == self.fragments[idx + 1]); assert(self@[idx + 1].len > 0); }
    }
%fn move_len_to_next_fragment
    requires
        old(self).ok(),
        exists|j: int| fr_in(old(self)@, fragment_at_offset as int, j) && j + 1 < old(self)@.len() && 0 < len_move < #[trigger] old(self)@[j].len,
    ensures
        final(self).ok(),
        forall|j: int| fr_in(old(self)@, fragment_at_offset as int, j) ==> final(self)@ == #[trigger] moved(old(self)@, j, j + 1, len_move as int),
%at start
    let ghost f = self@;
    let ghost k = choose|j: int| fr_in(f, fragment_at_offset as int, j) && j + 1 < f.len() && 0 < len_move < #[trigger] f[j].len;
    proof {
        cum_le(f, k + 1, f.len() as int);
        moved_cum(f, k, k + 1, len_move as int);
        assert forall|j: int| #[trigger] fr_at(f, fragment_at_offset as int, j) implies j == k by { fr_one(f, fragment_at_offset as int, j, k); }
        only_in(f, fragment_at_offset as int, k);
    }
%at end
    proof { assert(self@ =~= moved(f, k, k + 1, len_move as int)); }
%fn move_len_to_prev_fragment
    requires
        old(self).ok(),
        exists|j: int| fr_in(old(self)@, fragment_at_offset as int, j) && 0 < j && 0 < len_move < #[trigger] old(self)@[j].len,
    ensures
        final(self).ok(),
        forall|j: int| fr_in(old(self)@, fragment_at_offset as int, j) ==> final(self)@ == #[trigger] moved(old(self)@, j, j - 1, len_move as int),
%at start
    let ghost f = self@;
    let ghost k = choose|j: int| fr_in(f, fragment_at_offset as int, j) && 0 < j && 0 < len_move < #[trigger] f[j].len;
    proof {
        cum_le(f, k + 1, f.len() as int);
        moved_cum(f, k, k - 1, len_move as int);
        assert forall|j: int| #[trigger] fr_at(f, fragment_at_offset as int, j) implies j == k by { fr_one(f, fragment_at_offset as int, j, k); }
        only_in(f, fragment_at_offset as int, k);
    }
%at end
    proof { assert(self@ =~= moved(f, k, k - 1, len_move as int)); }
%fn split
    requires
        old(self).ok(), old(self).len < N,
        exists|j: int| #[trigger] fr_in(old(self)@, at_offset as int, j),
    ensures
        final(self).ok(),
        forall|j: int| #[trigger] fr_in(old(self)@, at_offset as int, j) ==> final(self)@ == split_at(old(self)@, j, at_offset as int, new_idx),
%at start
    let ghost f = self@;
    let ghost k = choose|j: int| #[trigger] fr_in(f, at_offset as int, j);
    proof {
        cum_le(f, k + 1, f.len() as int);
        cum_le(f, 0, k);
        assert forall|j: int| #[trigger] fr_at(f, at_offset as int, j) implies j == k by { fr_one(f, at_offset as int, j, k); }
        only_in(f, at_offset as int, k);
    }
%at end
    proof {
        let g = split_at(f, k, at_offset as int, new_idx);
        assert(self@.len() == g.len());
        assert forall|i: int| 0 <= i < g.len() implies #[trigger] self@[i] == g[i] by {
            if i < k { assert(self@[i] == f[i]); } else if i > k + 1 { assert(self@[i] == f[i - 1]); }
        }
        assert(self@ =~= g);
        split_cum(f, k, at_offset as int, new_idx);
    }
%impl Default for Fragments<N>
%header impl Fragments<INLINE>
%fn default
%sub [Fragment::null(); N] =>> [Fragment::null(); INLINE]
    ensures r.blank(),
%impl Fragments<INLINE>
%header impl Fragments<INLINE>
%fn append
%sub $s.iter().copied() =>> vx_copied($s)
%like fragments.vx
%at start
    let ghost f = self@;
    proof {
        inline_handled();
        push_cum(f, fragment);
        parts(*self);
    }
%before gtree.append
    proof { frs_of(gtree); }
%at end
    proof { assert(self@ =~= f.push(fragment)); }
%fn extend
%like fragments.vx
%closure 0 |last: &mut Fragment|
    -> (r: ())
    requires old(last).len + extend_by <= usize::MAX,
    ensures *final(last) == (Fragment { len: (old(last).len + extend_by) as usize, idx: old(last).idx }),
%at start
    let ghost f = self@;
    proof {
        more_last(f, extend_by as int);
        parts(*self);
    }
%at end
    proof { assert(self@ =~= f.update(f.len() - 1, Fragment { len: (f.last().len + extend_by) as usize, idx: f.last().idx })); }
%fn fragment_at_offset
%like fragments.vx
%at start
    proof { parts(*self); }
%after let (leaf_idx, fragment_offset)
    proof {
        let c = leaf_idx.idx as int;
        let p = gtree.t@.pos(c);
        found_fr(*gtree, c, at_offset as int);
        cum_le(self@, p + 1, self@.len() as int);
        if p + 1 < self@.len() { other_fr(*gtree, p, p + 1); assert(self@[p + 1].len > 0); }
    }
%fn from_first_fragment
%like fragments.vx
%fn len
%like fragments.vx
%at start
    proof { parts(*self); }
%fn move_len_to_next_fragment
%like fragments.vx
%closure 0 |this: &mut Fragment, next: &mut Fragment|
    -> (r: ())
    requires old(this).len >= len_move, old(next).len + len_move <= usize::MAX,
    ensures
        *final(this) == (Fragment { len: (old(this).len - len_move) as usize, idx: old(this).idx }),
        *final(next) == (Fragment { len: (old(next).len + len_move) as usize, idx: old(next).idx }),
%at start
    let ghost f = self@;
    let ghost at = fragment_at_offset as int;
    let ghost k = choose|j: int| fr_in(f, at, j) && j + 1 < f.len() && 0 < len_move < #[trigger] f[j].len;
    proof {
        parts(*self);
        only_in(f, at, k);
        moved_cum(f, k, k + 1, len_move as int);
    }
%after let (leaf_idx, _)
    let ghost g = *gtree;
    proof {
        found_fr(g, leaf_idx.idx as int, at);
        other_fr(g, k, k + 1);
        other_fr(g, k + 1, k);
        cum_le(f, k + 2, f.len() as int);
        cum_le(f, 0, k);
    }
%at end
    proof { assert(self@ =~= moved(f, k, k + 1, len_move as int)); }
%fn move_len_to_prev_split
%like fragments.vx
%closure 0 |this: &mut Fragment, prev: &mut Fragment|
    -> (r: ())
    requires old(this).len >= len_move, old(prev).len + len_move <= usize::MAX,
    ensures
        *final(this) == (Fragment { len: (old(this).len - len_move) as usize, idx: old(this).idx }),
        *final(prev) == (Fragment { len: (old(prev).len + len_move) as usize, idx: old(prev).idx }),
%at start
    let ghost f = self@;
    let ghost at = at_offset as int;
    let ghost k = choose|j: int| fr_in(f, at, j) && 0 < j && 0 < len_move < #[trigger] f[j].len;
    proof {
        parts(*self);
        only_in(f, at, k);
        moved_cum(f, k, k - 1, len_move as int);
    }
%after let (leaf_idx, _)
    let ghost g = *gtree;
    proof {
        found_fr(g, leaf_idx.idx as int, at);
        other_fr(g, k, k - 1);
        other_fr(g, k - 1, k);
        cum_le(f, k + 1, f.len() as int);
        cum_le(f, 0, k - 1);
    }
%at end
    proof { assert(self@ =~= moved(f, k, k - 1, len_move as int)); }
%fn split
%sub $s.iter().copied() =>> vx_copied($s)
%like fragments.vx
    decreases if *old(self) is Array { 1int } else { 0 },
%closure 0 |fragment: &mut Fragment|
    -> (r: Fragment)
    requires fragment_offset <= at_offset, at_offset - fragment_offset < old(fragment).len,
    ensures
        *final(fragment) == (Fragment { len: (at_offset - fragment_offset) as usize, idx: old(fragment).idx }),
        r == (Fragment { len: (old(fragment).len - (at_offset - fragment_offset)) as usize, idx: new_idx }),
%at start
    let ghost f = self@;
    let ghost k = choose|j: int| #[trigger] fr_in(f, at_offset as int, j);
    proof {
        parts(*self);
        only_in(f, at_offset as int, k);
        split_cum(f, k, at_offset as int, new_idx);
    }
%before self.split
    proof {
        assert(self@ =~= f);
        assert(fr_in(self@, at_offset as int, k));
    }
%after let (fragment_idx, fragment_offset)
    proof { found_fr(*gtree, fragment_idx.idx as int, at_offset as int); }
%at end
    proof { assert(self@ =~= split_at(f, k, at_offset as int, new_idx)); }
