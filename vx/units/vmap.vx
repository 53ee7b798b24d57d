// C11: version vectors.
%use basemap.vx
%use ordering.vx
%raw
pub open spec fn le(a: VersionMap, b: VersionMap) -> bool {
    forall|id: u64| #[trigger] a.at(id) <= b.at(id)
}
/// The pair is the two counts of some replica.
pub open spec fn pair_of(a: VersionMap, b: VersionMap, p: (usize, usize)) -> bool {
    exists|id: u64| p == (#[trigger] a.at(id), b.at(id))
}
pub open spec fn covers(s: Seq<(usize, usize)>, x: usize, y: usize) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (x, y)
}
pub proof fn covers_grows(s: Seq<(usize, usize)>, p: (usize, usize))
    ensures
        covers(s.push(p), p.0, p.1),
        forall|x: usize, y: usize| covers(s, x, y) ==> #[trigger] covers(s.push(p), x, y),
{
    assert(s.push(p)[s.len() as int] == p);
    assert forall|x: usize, y: usize| covers(s, x, y) implies #[trigger] covers(s.push(p), x, y) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (x, y);
        assert(s.push(p)[i] == (x, y));
    }
}
pub open spec fn cmp_of(less: bool, greater: bool) -> Option<Ordering> {
    if less && greater {
        None
    } else if less {
        Some(Ordering::Less)
    } else if greater {
        Some(Ordering::Greater)
    } else {
        Some(Ordering::Equal)
    }
}
pub open spec fn some_lt(s: Seq<(usize, usize)>, n: int) -> bool {
    exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 < s[i].1
}
pub proof fn some_grows(s: Seq<(usize, usize)>, n: int)
    requires 0 <= n < s.len(),
    ensures
        some_lt(s, n + 1) == (some_lt(s, n) || s[n].0 < s[n].1),
        some_gt(s, n + 1) == (some_gt(s, n) || s[n].0 > s[n].1),
        some_lt(s, n) ==> some_lt(s, s.len() as int),
        some_gt(s, n) ==> some_gt(s, s.len() as int),
        s[n].0 < s[n].1 ==> some_lt(s, s.len() as int),
        s[n].0 > s[n].1 ==> some_gt(s, s.len() as int),
{
    if some_lt(s, n) {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 < s[i].1;
        assert(s[i].0 < s[i].1);
    }
    if some_gt(s, n) {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 > s[i].1;
        assert(s[i].0 > s[i].1);
    }
}
pub open spec fn some_gt(s: Seq<(usize, usize)>, n: int) -> bool {
    exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 > s[i].1
}
%file version_map.rs
%free partial_cmp/update_order
%attr #[verifier::loop_isolation(false)]
%sigsub <I> =>>
%sigsub iter: I =>> iter: Vec<(Length, Length)>
%sigsub where I: Iterator<Item = (Length, Length)>, =>>
%sub for ($a, $b) in iter { $body } =>> let mut vx_i: usize = 0; while vx_i < iter.len() { let ($a, $b) = iter[vx_i]; vx_i += 1; $body }
    ensures
        r == cmp_of(
            order == Ordering::Less || some_lt(iter@, iter@.len() as int),
            order == Ordering::Greater || some_gt(iter@, iter@.len() as int),
        ),
%at start
    let ghost o0 = order;
%loop 0
    invariant
        vx_i <= iter@.len(),
        Some(order) == cmp_of(
            o0 == Ordering::Less || some_lt(iter@, vx_i as int),
            o0 == Ordering::Greater || some_gt(iter@, vx_i as int),
        ),
    decreases iter@.len() - vx_i,
%at loopstart 0
    proof { some_grows(iter@, vx_i as int); }
%impl PartialOrd for VersionMap
%header impl VersionMap
%fn partial_cmp
%sub self.iter().filter(|(_, $v)| $c).map(|($a, $b)| { $body },) =>> { let mut vx_out: Vec<(Length, Length)> = Vec::new(); let vx_es = self.iter(); let mut vx_i: usize = 0; while vx_i < vx_es.len() { let $v = &vx_es[vx_i].1; if $c { let ($a, $b) = vx_es[vx_i]; vx_out.push({ $body }); } vx_i += 1; } vx_out }
%sub other.iter().filter(|(_, $v)| $c).map(|($a, $b)| { $body },) =>> { let mut vx_out: Vec<(Length, Length)> = Vec::new(); let vx_es = other.iter(); let mut vx_i: usize = 0; while vx_i < vx_es.len() { let $v = &vx_es[vx_i].1; if $c { let ($a, $b) = vx_es[vx_i]; vx_out.push({ $body }); } vx_i += 1; } vx_out }
    requires self.wf(), other.wf(),
    ensures r == cmp_of(!le(*other, *self), !le(*self, *other)),
%loop 0
    invariant
        vx_yields(*self, vx_es@),
        vx_i <= vx_es@.len(),
        forall|j: int| 0 <= j < vx_out@.len() ==> pair_of(*self, *other, #[trigger] vx_out@[j]),
        self.wf(), other.wf(),
        forall|j: int| 0 <= j < vx_i && vx_es@[j].1 > 0 ==> covers(vx_out@, (#[trigger] vx_es@[j]).1, other.at(vx_es@[j].0)),
    decreases vx_es@.len() - vx_i,
%loop 1
    invariant
        vx_yields(*other, vx_es@),
        vx_i <= vx_es@.len(),
        forall|j: int| 0 <= j < vx_out@.len() ==> pair_of(*self, *other, #[trigger] vx_out@[j]),
        self.wf(), other.wf(),
        forall|j: int| 0 <= j < vx_i && vx_es@[j].1 > 0 ==> covers(vx_out@, self.at((#[trigger] vx_es@[j]).0), vx_es@[j].1),
    decreases vx_es@.len() - vx_i,
%at loopstart 0
    let ghost o = vx_out@;
%at loopend 0
    proof {
        if vx_out@ != o {
            covers_grows(o, vx_out@.last());
            assert(vx_out@ =~= o.push(vx_out@.last()));
            let e = vx_es@[vx_i - 1];
            assert(vx_out@.last() == (self.at(e.0), other.at(e.0)));
        }
    }
%at loopstart 1
    let ghost o = vx_out@;
%at loopend 1
    proof {
        if vx_out@ != o {
            covers_grows(o, vx_out@.last());
            assert(vx_out@ =~= o.push(vx_out@.last()));
            let e = vx_es@[vx_i - 1];
            assert(vx_out@.last() == (self.at(e.0), other.at(e.0)));
        }
    }
