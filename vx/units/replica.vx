// replica.rs: what's done to a replica.
%use vmap.vx
%use backlog.vx
%import runtree.vx
%use edits.vx
%raw
/// `core::ops::Bound` and `RangeBounds`
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub trait RangeBounds<T> {
    spec fn lo(&self) -> Bound<T>;
    spec fn hi(&self) -> Bound<T>;
    fn start_bound(&self) -> (r: Bound<&T>)
        ensures
            match self.lo() {
                Bound::Included(n) => r matches Bound::Included(m) && *m == n,
                Bound::Excluded(n) => r matches Bound::Excluded(m) && *m == n,
                Bound::Unbounded => r is Unbounded,
            };
    fn end_bound(&self) -> (r: Bound<&T>)
        ensures
            match self.hi() {
                Bound::Included(n) => r matches Bound::Included(m) && *m == n,
                Bound::Excluded(n) => r matches Bound::Excluded(m) && *m == n,
                Bound::Unbounded => r is Unbounded,
            };
}
pub open spec fn sat1(n: usize) -> usize { if n < usize::MAX { (n + 1) as usize } else { n } }
pub open spec fn lo_of(b: Bound<usize>, lo: usize) -> usize {
    match b { Bound::Included(n) => n, Bound::Excluded(n) => sat1(n), Bound::Unbounded => lo }
}
pub open spec fn hi_of(b: Bound<usize>, hi: usize) -> usize {
    match b { Bound::Included(n) => sat1(n), Bound::Excluded(n) => n, Bound::Unbounded => hi }
}
%file utils.rs
%free range_bounds_to_start_end
    ensures r == (lo_of(range.lo(), lo), hi_of(range.hi(), hi)),
%free offset_out_of_bounds
%trusted
    requires offset > len,
    ensures false,
%free replica_id_equal_to_forked
%trusted
    ensures false,
%free replica_id_is_zero
%trusted
    ensures false,
%free start_greater_than_end
%trusted
    requires start > end,
    ensures false,
%file replica.rs
%alias Range Range
%item struct Replica -Clone
%raw
impl Replica {
    pub open spec fn chars(&self) -> Seq<Ch> { self.run_tree.chars() }
    pub open spec fn nruns(&self, id: u64) -> int { self.run_tree.nruns()(id) }

    pub open spec fn wf(&self) -> bool {
        &&& self.id != 0
        &&& self.run_tree.wf()
        &&& self.version_map.wf() && self.version_map.this_id == self.id
        &&& self.deletion_map.wf() && self.deletion_map.this_id == self.id
        &&& forall|id: u64| (#[trigger] self.version_map.at(id)) == count(self.chars(), id)
        &&& self.run_clock.0 == self.nruns(self.id)
        &&& self.lamport_clock.0 >= 1
        &&& young(self.chars(), self.lamport_clock.0)
        &&& ages_ok(self.chars())
        &&& self.backlog.wf()
    }
    /// The clocks are not at the end of their types.
    pub open spec fn room(&self, len: int) -> bool {
        &&& self.run_clock.0 < u64::MAX
        &&& self.lamport_clock.0 < u64::MAX
        &&& self.deletion_map.this_value < u64::MAX
        &&& self.chars().len() + len <= usize::MAX
    }
    pub open spec fn same(&self, o: &Replica) -> bool {
        &&& self.id == o.id
        &&& self.run_tree == o.run_tree
        &&& self.lamport_clock == o.lamport_clock
        &&& self.run_clock == o.run_clock
        &&& self.version_map == o.version_map
        &&& self.deletion_map == o.deletion_map
        &&& self.backlog == o.backlog
    }
    pub open spec fn knows(&self, a: InnerAnchor) -> bool { self.version_map.at(a.replica_id) >= a.offset }
    pub open spec fn merged_ins(&self, e: Insertion) -> bool { self.version_map.at(e.text.inserted_by) > e.text.range.start }
    pub open spec fn ready_ins(&self, e: Insertion) -> bool {
        self.version_map.at(e.text.inserted_by) == e.text.range.start && self.knows(e.anchor)
    }
    pub open spec fn merged_del(&self, e: Deletion) -> bool { self.deletion_map.at(e.version_map.this_id) >= e.deletion_ts }
    pub open spec fn ready_del(&self, e: Deletion) -> bool {
        self.deletion_map.at(e.version_map.this_id) + 1 == e.deletion_ts && le(e.version_map, self.version_map)
    }
    /// The insertion comes from a replica that has at most what this one has.
    pub open spec fn genuine_ins(&self, e: Insertion) -> bool {
        &&& e.text.range.start <= e.text.range.end
        &&& e.text.range.start < e.text.range.end && self.ready_ins(e) ==> {
            &&& ins_ok(self.chars(), self.nruns(e.text.inserted_by), e)
            &&& e.text.inserted_by != self.id
        }
    }
    pub open spec fn genuine_del(&self, e: Deletion) -> bool {
        &&& e.version_map.wf()
        &&& e.end.replica_id != 0 && self.ready_del(e) ==> {
            &&& del_ok(self.chars(), e)
            &&& e.version_map.this_id != self.id
        }
    }
    /// What merging an insertion that's ready does.
    pub open spec fn after_ins(&self, o: &Replica, e: Insertion) -> bool {
        let id = e.text.inserted_by;
        &&& o.id == self.id
        &&& o.chars() == merge_ins(self.chars(), e)
        &&& o.run_clock == self.run_clock
        &&& o.deletion_map == self.deletion_map
        &&& forall|i: u64| #[trigger] o.version_map.at(i) == (if i == id { e.text.range.end } else { self.version_map.at(i) })
        &&& o.lamport_clock.0 == (if e.lamport_ts >= self.lamport_clock.0 { e.lamport_ts + 1 } else { self.lamport_clock.0 as int })
        &&& forall|i: u64| #[trigger] o.nruns(i) == (if i == id { e.run_ts + 1 } else { self.nruns(i) })
    }
    pub open spec fn after_del(&self, o: &Replica, e: Deletion) -> bool {
        &&& o.id == self.id
        &&& o.chars() == merge_del(self.chars(), e)
        &&& o.run_clock == self.run_clock
        &&& o.lamport_clock == self.lamport_clock
        &&& o.version_map == self.version_map
        &&& forall|i: u64| #[trigger] o.deletion_map.at(i) == (if i == e.version_map.this_id { e.deletion_ts } else { self.deletion_map.at(i) })
        &&& o.run_tree.nruns() == self.run_tree.nruns()
    }
}
%impl Replica
%fn can_merge_deletion
%sub self.version_map >= *deletion.version_map() =>> (match self.version_map.partial_cmp(deletion.version_map()) { Some(vx_o) => vx_o != Ordering::Less, None => false })
    requires self.wf(), deletion.version_map.wf(), !self.merged_del(*deletion),
    ensures r == self.ready_del(*deletion),
%fn can_merge_insertion
    requires self.wf(), !self.merged_ins(*insertion),
    ensures r == self.ready_ins(*insertion),
%fn create_anchor
    requires self.wf(),
    ensures
        at_offset <= vis(self.chars()),
        anchored(self.chars(), at_offset as int, with_bias, r),
        self.knows(r.inner),
        anchor_ok(self.chars(), r),
        self.has_place(r),
        resolved(self.chars(), r) == at_offset,
%at end
    proof {
        self.run_tree.facts();
        anchored_is_ok(self.chars(), at_offset as int, with_bias, vx_tail);
        assert(self.version_map.at(vx_tail.inner.replica_id) == count(self.chars(), vx_tail.inner.replica_id));
    }
%fn deleted
%sub for ($id, $ts) in version_map.iter_mut() { $b } =>> let vx_ks = version_map.vx_keys(); let mut vx_i: usize = 0; while vx_i < vx_ks.len() { let $id = vx_ks[vx_i]; let $ts = version_map.get_mut($id); vx_i += 1; $b }
%sub (start..end).into() =>> URange { start: start, end: end }
    requires old(self).wf(), old(self).room(0),
    ensures
        lo_of(range.lo(), 0) <= hi_of(range.hi(), vis(old(self).chars()) as usize) <= vis(old(self).chars()),
        ({
            let lo = lo_of(range.lo(), 0);
            let hi = hi_of(range.hi(), vis(old(self).chars()) as usize);
            if lo == hi {
                final(self).same(old(self)) && r.end.replica_id == 0
            } else {
                &&& final(self).wf()
                &&& local_delete(old(self).chars(), lo as int, hi as int, final(self).chars(), (r.start, r.end))
                &&& r.version_map.wf() && r.version_map.this_id == old(self).id
                &&& le(r.version_map, old(self).version_map)
                &&& r.deletion_ts == old(self).deletion_map.this_value + 1
                // merged elsewhere it does what it did here
                &&& del_ok(old(self).chars(), r)
                &&& final(self).chars() == merge_del(old(self).chars(), r)
                &&& final(self).deletion_map.at(old(self).id) == r.deletion_ts
                &&& forall|i: u64| i != old(self).id ==> #[trigger] final(self).deletion_map.at(i) == old(self).deletion_map.at(i)
                &&& final(self).id == old(self).id
                &&& final(self).version_map == old(self).version_map
                &&& final(self).backlog == old(self).backlog
                &&& final(self).run_clock == old(self).run_clock
                &&& final(self).lamport_clock == old(self).lamport_clock
                &&& forall|i: u64| #[trigger] final(self).nruns(i) == old(self).nruns(i)
            }
        }),
%loop 0
    invariant
        vx_i <= vx_ks@.len(),
        vx_keys_of(version_map, vx_ks@),
        version_map.wf(),
        version_map.this_id == self.id,
        self.version_map == old(self).version_map,
        self.version_map.wf(), self.version_map.this_id == self.id,
        forall|j: int| 0 <= j < vx_i ==> version_map.at(#[trigger] vx_ks@[j]) == self.version_map.at(vx_ks@[j]),
    decreases vx_ks@.len() - vx_i,
%at end
    proof {
        let lo = lo_of(range.lo(), 0) as int;
        let hi = hi_of(range.hi(), vis(old(self).chars()) as usize) as int;
        if lo < hi <= vis(old(self).chars()) {
            old(self).run_tree.facts();
            local_delete_is_merge(old(self).chars(), old(self).run_tree.nruns(), lo, hi, self.chars(), vx_tail,
                old(self).version_map, old(self).lamport_clock.0);
        }
    }
%after 0 while
    proof {
        assert forall|id: u64| vx_ks@.contains(id) implies #[trigger] version_map.at(id) == self.version_map.at(id) by {
            let j = choose|j: int| 0 <= j < vx_ks@.len() && vx_ks@[j] == id;
            assert(version_map.at(vx_ks@[j]) == self.version_map.at(vx_ks@[j]));
        }
    }
%fn fork
    requires
        self.wf(),
        // ids are unique
        count(self.chars(), new_id) == 0,
        self.nruns(new_id) == 0,
        self.deletion_map.at(new_id) == 0,
        !self.version_map.rest@.contains_key(new_id),
        !self.deletion_map.rest@.contains_key(new_id),
    ensures
        new_id != 0 && new_id != self.id,
        r.wf(),
        r.id == new_id,
        r.run_tree == self.run_tree,
        forall|i: u64| #[trigger] r.version_map.at(i) == self.version_map.at(i),
        forall|i: u64| #[trigger] r.deletion_map.at(i) == self.deletion_map.at(i),
        r.backlog == self.backlog,
        r.lamport_clock == self.lamport_clock,
        r.run_clock.0 == 0,
%at end
    proof {
        assert forall|id: u64| #[trigger] vx_tail.version_map.at(id) == self.version_map.at(id) by {}
        assert forall|id: u64| #[trigger] vx_tail.version_map.at(id) == count(self.chars(), id) by { assert(self.version_map.at(id) == count(self.chars(), id)); }
    }
%fn has_anchor
    ensures r == self.knows(anchor),
%fn has_merged_deletion
    ensures r == self.merged_del(*deletion),
%fn has_merged_insertion
    ensures r == self.merged_ins(*insertion),
%fn id
    ensures r == self.id,
%fn inserted
    requires old(self).wf(), old(self).room(len as int),
    ensures
        at_offset <= vis(old(self).chars()),
        len == 0 ==> final(self).same(old(self)) && r.text.range.start == r.text.range.end,
        len > 0 ==> {
            &&& final(self).wf()
            // its identity
            &&& r.text.inserted_by == old(self).id
            &&& r.text.range.start == old(self).version_map.at(old(self).id)
            &&& r.text.range.end == r.text.range.start + len
            &&& r.lamport_ts <= final(self).lamport_clock.0 - 1
            &&& r.lamport_ts >= old(self).lamport_clock.0 - 1
            &&& forall|i: int| 0 <= i < old(self).chars().len() ==> (#[trigger] old(self).chars()[i]).lam <= r.lamport_ts
            // merged elsewhere it does what it did here
            &&& ins_ok(old(self).chars(), old(self).nruns(old(self).id), r)
            &&& old(self).after_ins_self(final(self), r)
            // the text is where it was put
            &&& final(self).chars() == splice(old(self).chars(), after_vis(old(self).chars(), at_offset as int), ins_block(r))
            &&& final(self).backlog == old(self).backlog
        },
%at start
    proof { self.run_tree.facts(); assert(self.version_map.at(self.id) == self.version_map.this_value); vis_le(self.chars()); count_le(self.chars(), self.id); }
%at end
    proof {
        if len > 0 && at_offset <= vis(old(self).chars()) {
            local_is_merge(old(self).chars(), old(self).run_tree.nruns(), at_offset as int, old(self).run_clock, old(self).lamport_clock,
                self.chars(), self.run_tree.nruns(), self.run_clock, self.lamport_clock, vx_tail);
            merge_counts(old(self).chars(), old(self).nruns(old(self).id), vx_tail);
            assert(old(self).after_ins_self(self, vx_tail));
            assert(self.version_map.wf());
            assert forall|id: u64| (#[trigger] self.version_map.at(id)) == count(self.chars(), id) by { assert(old(self).version_map.at(id) == count(old(self).chars(), id)); }
            assert(self.wf());
            assert forall|i: int| 0 <= i < old(self).chars().len() implies (#[trigger] old(self).chars()[i]).lam <= vx_tail.lamport_ts by {}
            assert(vx_tail.text.range.end == vx_tail.text.range.start + len);
            assert(self.chars() == splice(old(self).chars(), after_vis(old(self).chars(), at_offset as int), ins_block(vx_tail)));
            assert(vx_tail.lamport_ts <= self.lamport_clock.0 - 1);
        }
    }
%fn len
    requires self.wf(),
    ensures r == vis(self.chars()),
%fn integrate_deletion
    requires old(self).wf(), old(self).genuine_del(*deletion),
    ensures
        deletion.end.replica_id == 0 || old(self).merged_del(*deletion) ==> final(self).same(old(self)) && r@.len() == 0,
        deletion.end.replica_id != 0 && !old(self).merged_del(*deletion) ==> {
            &&& final(self).wf()
            &&& forall|i: u64| #[trigger] final(self).backlog.ins(i) == old(self).backlog.ins(i)
            &&& forall|i: u64| i != deletion.version_map.this_id ==> #[trigger] final(self).backlog.dels(i) == old(self).backlog.dels(i)
        },
        deletion.end.replica_id != 0 && !old(self).merged_del(*deletion) && old(self).ready_del(*deletion) ==> {
            &&& old(self).after_del(final(self), *deletion)
            &&& ranges_tell(old(self).chars(), final(self).chars(), r@)
            &&& del_gone(old(self).backlog.dels(deletion.version_map.this_id),
                    final(self).backlog.dels(deletion.version_map.this_id), *deletion)
        },
        deletion.end.replica_id != 0 && !old(self).merged_del(*deletion) && !old(self).ready_del(*deletion) ==> {
            &&& r@.len() == 0
            &&& final(self).but_backlog(old(self))
            &&& del_kept(old(self).backlog.dels(deletion.version_map.this_id),
                    final(self).backlog.dels(deletion.version_map.this_id), *deletion)
        },
%fn integrate_insertion
    requires old(self).wf(), old(self).genuine_ins(*insertion),
    ensures
        insertion.text.range.start == insertion.text.range.end || old(self).merged_ins(*insertion) ==>
            final(self).same(old(self)) && r is None,
        insertion.text.range.start != insertion.text.range.end && !old(self).merged_ins(*insertion) ==> {
            &&& final(self).wf()
            &&& forall|i: u64| #[trigger] final(self).backlog.dels(i) == old(self).backlog.dels(i)
            &&& forall|i: u64| i != insertion.text.inserted_by ==> #[trigger] final(self).backlog.ins(i) == old(self).backlog.ins(i)
        },
        insertion.text.range.start != insertion.text.range.end && !old(self).merged_ins(*insertion)
            && old(self).ready_ins(*insertion) ==> {
            &&& old(self).after_ins(final(self), *insertion)
            &&& r is Some && r->Some_0 == vis(old(self).chars().subrange(0, ins_place(old(self).chars(), *insertion)))
            &&& ins_gone(old(self).backlog.ins(insertion.text.inserted_by),
                    final(self).backlog.ins(insertion.text.inserted_by), *insertion)
        },
        insertion.text.range.start != insertion.text.range.end && !old(self).merged_ins(*insertion)
            && !old(self).ready_ins(*insertion) ==> {
            &&& r is None
            &&& final(self).but_backlog(old(self))
            &&& ins_kept(old(self).backlog.ins(insertion.text.inserted_by),
                    final(self).backlog.ins(insertion.text.inserted_by), *insertion)
        },
%fn merge_unchecked_deletion
    requires
        old(self).wf(), deletion.version_map.wf(), !old(self).merged_del(*deletion), old(self).ready_del(*deletion),
        del_ok(old(self).chars(), *deletion), deletion.version_map.this_id != old(self).id,
    ensures
        final(self).wf(),
        old(self).after_del(final(self), *deletion),
        final(self).backlog == old(self).backlog,
        ranges_tell(old(self).chars(), final(self).chars(), r@),
%at start
    proof {
        self.run_tree.facts();
        merge_del_keeps(self.chars(), self.run_tree.nruns(), *deletion, self.lamport_clock.0);
    }
%fn merge_unchecked_insertion
    requires
        old(self).wf(), !old(self).merged_ins(*insertion), old(self).ready_ins(*insertion),
        ins_ok(old(self).chars(), old(self).nruns(insertion.text.inserted_by), *insertion),
        insertion.text.inserted_by != old(self).id,
    ensures
        final(self).wf(),
        old(self).after_ins(final(self), *insertion),
        final(self).backlog == old(self).backlog,
        r == vis(old(self).chars().subrange(0, ins_place(old(self).chars(), *insertion))),
%at start
    proof {
        self.run_tree.facts();
        place_is(self.chars(), self.nruns(insertion.text.inserted_by), *insertion);
        merge_counts(self.chars(), self.nruns(insertion.text.inserted_by), *insertion);
        assert(self.version_map.at(insertion.text.inserted_by) == count(self.chars(), insertion.text.inserted_by));
    }
%at end
    proof {
        merge_ages_ok(old(self).chars(), old(self).run_tree.nruns(), *insertion);
        merge_young(old(self).chars(), old(self).nruns(insertion.text.inserted_by), *insertion, old(self).lamport_clock.0, self.lamport_clock.0);
    }
%fn new
    ensures
        id != 0,
        r.wf(),
        r.id == id,
        r.chars() == block(id, 0, len as int, 0, 0, false),
        r.lamport_clock.0 == 1,
        forall|i: u64| (#[trigger] r.deletion_map.at(i)) == 0,
        forall|i: u64| (#[trigger] r.backlog.ins(i)) == Seq::<Insertion>::empty(),
        forall|i: u64| (#[trigger] r.backlog.dels(i)) == Seq::<Deletion>::empty(),
%at end
    proof { block_ok(id, len as int, 1); }
%fn resolve_anchor
    requires
        self.wf(),
        // made by a replica
        self.has_place(anchor) ==> anchor_ok(self.chars(), anchor),
    ensures
        r is Some == self.has_place(anchor),
        r is Some ==> r->Some_0 == resolved(self.chars(), anchor),
%raw
impl Replica {
    pub open spec fn has_place(&self, a: Anchor) -> bool {
        if a.bias == AnchorBias::Left { self.version_map.at(a.inner.replica_id) >= a.inner.offset }
        else { a.inner.replica_id == 0 || self.version_map.at(a.inner.replica_id) > a.inner.offset }
    }
    pub open spec fn but_backlog(&self, o: &Replica) -> bool {
        &&& self.id == o.id
        &&& self.run_tree == o.run_tree
        &&& self.lamport_clock == o.lamport_clock
        &&& self.run_clock == o.run_clock
        &&& self.version_map == o.version_map
        &&& self.deletion_map == o.deletion_map
    }
    pub open spec fn after_ins_self(&self, o: &Replica, e: Insertion) -> bool {
        let id = self.id;
        &&& o.id == self.id
        &&& o.chars() == merge_ins(self.chars(), e)
        &&& o.deletion_map == self.deletion_map
        &&& forall|i: u64| #[trigger] o.version_map.at(i) == (if i == id { e.text.range.end } else { self.version_map.at(i) })
        &&& forall|i: u64| #[trigger] o.nruns(i) == (if i == id { e.run_ts + 1 } else { self.nruns(i) })
    }
}
pub open spec fn vx_keys_of(vm: VersionMap, ks: Seq<u64>) -> bool {
    &&& ks.contains(vm.this_id)
    &&& forall|k: u64| vm.rest@.contains_key(k) ==> ks.contains(k)
    &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]) == vm.this_id || vm.rest@.contains_key(ks[i])
}
impl VersionMap {
    /// The keys `iter_mut` goes through, in some order.
    pub fn vx_keys(&self) -> (r: Vec<u64>)
        requires self.wf(),
        ensures vx_keys_of(*self, r@),
    {
        let l = self.iter();
        let mut v: Vec<u64> = Vec::new();
        let mut i: usize = 0;
        while i < l.len()
            invariant
                i <= l@.len(), v@.len() == i,
                vx_yields(*self, l@),
                forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]) == l@[j].0,
            decreases l@.len() - i,
        {
            v.push(l[i].0);
            i += 1;
        }
        proof {
            assert(v@[0] == self.this_id);
            assert forall|k: u64| self.rest@.contains_key(k) implies v@.contains(k) by {
                let j = choose|j: int| 0 <= j < l@.len() && (#[trigger] l@[j]) == (k, self.rest@[k]);
                assert(v@[j] == k);
            }
        }
        v
    }
}
