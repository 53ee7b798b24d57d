// Lists of lists of edits, one per replica, as bytes.
%raw
/// What a queue is made of, and its bytes.
pub trait Item: Sized {
    spec fn ienc(&self, out: Seq<u8>) -> bool;
    /// The item at the front of `b`, in the queue of `id`.
    spec fn idec(id: u64, b: Seq<u8>) -> Option<(Self, Seq<u8>)>;
    spec fn iok(&self, id: u64) -> bool;
    proof fn irt(&self, id: u64, out: Seq<u8>, rest: Seq<u8>)
        requires self.ienc(out), self.iok(id),
        ensures Self::idec(id, out + rest) == Some((*self, rest));
}
pub trait Queue: Sized {
    type T: Item;
    spec fn items(&self) -> Seq<Self::T>;
    spec fn make(s: Seq<Self::T>) -> Self;
    proof fn make_items(s: Seq<Self::T>)
        ensures Self::make(s).items() == s;
}
pub open spec fn cat2(out: Seq<u8>, a: Seq<u8>, x: Seq<u8>) -> bool { out == a + x }
/// `out` encodes these items.
pub open spec fn items_enc<T: Item>(s: Seq<T>, out: Seq<u8>) -> bool
    decreases s.len(),
{
    if s.len() == 0 { out.len() == 0 } else {
        exists|a: Seq<u8>, x: Seq<u8>| #[trigger] cat2(out, a, x) && items_enc(s.drop_last(), a) && s.last().ienc(x)
    }
}
pub open spec fn items_dec<T: Item>(id: u64, b: Seq<u8>, n: nat, acc: Seq<T>) -> Option<(Seq<T>, Seq<u8>)>
    decreases n,
{
    if n == 0 { Some((acc, b)) } else {
        match T::idec(id, b) {
            None => None,
            Some((v, b)) => items_dec(id, b, (n - 1) as nat, acc.push(v)),
        }
    }
}
pub proof fn items_push<T: Item>(s: Seq<T>, i: int, a: Seq<u8>, x: Seq<u8>)
    requires 0 <= i < s.len(), items_enc(s.take(i), a), s[i].ienc(x),
    ensures items_enc(s.take(i + 1), a + x),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
    assert(cat2(a + x, a, x));
}
pub proof fn items_rt<T: Item>(id: u64, s: Seq<T>, out: Seq<u8>, rest: Seq<u8>, j: nat, acc: Seq<T>)
    requires items_enc(s, out), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).iok(id),
    ensures items_dec::<T>(id, out + rest, (s.len() + j) as nat, acc) == items_dec::<T>(id, rest, j, acc + s),
    decreases s.len(),
{
    broadcast use seq_assoc;
    if s.len() == 0 {
        assert(out + rest =~= rest);
        assert(acc + s =~= acc);
    } else {
        let (a, x) = choose|a: Seq<u8>, x: Seq<u8>| #[trigger] cat2(out, a, x) && items_enc(s.drop_last(), a) && s.last().ienc(x);
        assert(out + rest =~= a + (x + rest));
        assert(s[s.len() - 1].iok(id));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).iok(id) by { assert(s[i].iok(id)); }
        items_rt(id, s.drop_last(), a, x + rest, j + 1, acc);
        s.last().irt(id, x, rest);
        assert((acc + s.drop_last()).push(s.last()) =~= acc + s);
    }
}
/// A replica's queue, after its id.
pub open spec fn queue_enc<T: Item>(id: u64, s: Seq<T>, out: Seq<u8>) -> bool {
    exists|e: Seq<u8>| #[trigger] items_enc(s, e) && s.len() <= u64::MAX && out == id.vi_enc() + ((s.len() as u64).vi_enc() + e)
}
pub open spec fn queue_dec<Q: Queue>(b: Seq<u8>, acc: Map<u64, Q>) -> Option<(Map<u64, Q>, Seq<u8>)> {
    match u64::dec(b) {
        None => None,
        Some((id, b)) => match u64::dec(b) {
            None => None,
            Some((n, b)) => match items_dec::<Q::T>(id, b, n as nat, Seq::empty()) {
                None => None,
                Some((s, b)) => Some((acc.insert(id, Q::make(s)), b)),
            },
        },
    }
}
pub open spec fn queues_enc<Q: Queue>(keys: Seq<u64>, m: Map<u64, Q>, out: Seq<u8>) -> bool
    decreases keys.len(),
{
    if keys.len() == 0 { out.len() == 0 } else {
        exists|a: Seq<u8>, x: Seq<u8>| #[trigger] cat2(out, a, x) && queues_enc(keys.drop_last(), m, a) && queue_enc(keys.last(), m[keys.last()].items(), x)
    }
}
pub open spec fn queues_dec<Q: Queue>(b: Seq<u8>, n: nat, acc: Map<u64, Q>) -> Option<(Map<u64, Q>, Seq<u8>)>
    decreases n,
{
    if n == 0 { Some((acc, b)) } else {
        match queue_dec::<Q>(b, acc) {
            None => None,
            Some((acc, b)) => queues_dec(b, (n - 1) as nat, acc),
        }
    }
}
pub proof fn queues_push<Q: Queue>(keys: Seq<u64>, m: Map<u64, Q>, i: int, a: Seq<u8>, x: Seq<u8>)
    requires 0 <= i < keys.len(), queues_enc(keys.take(i), m, a), queue_enc(keys[i], m[keys[i]].items(), x),
    ensures queues_enc(keys.take(i + 1), m, a + x),
{
    assert(keys.take(i + 1).drop_last() =~= keys.take(i));
    assert(keys.take(i + 1).last() == keys[i]);
    assert(cat2(a + x, a, x));
}
pub open spec fn queues_put<Q: Queue>(keys: Seq<u64>, m: Map<u64, Q>, acc: Map<u64, Q>) -> Map<u64, Q>
    decreases keys.len(),
{
    if keys.len() == 0 { acc } else { queues_put(keys.drop_last(), m, acc).insert(keys.last(), Q::make(m[keys.last()].items())) }
}
pub proof fn queues_put_all<Q: Queue>(keys: Seq<u64>, m: Map<u64, Q>)
    ensures
        queues_put(keys, m, Map::empty()).dom() =~= keys.to_set(),
        forall|k: u64| keys.contains(k) ==> (#[trigger] queues_put(keys, m, Map::empty())[k]).items() == m[k].items(),
    decreases keys.len(),
{
    if keys.len() > 0 {
        queues_put_all(keys.drop_last(), m);
        Q::make_items(m[keys.last()].items());
        assert forall|k: u64| keys.contains(k) == (keys.drop_last().contains(k) || k == keys.last()) by {
            if keys.contains(k) {
                let i = keys.index_of(k);
                if i < keys.len() - 1 { assert(keys.drop_last()[i] == k); }
            }
            if keys.drop_last().contains(k) {
                let i = keys.drop_last().index_of(k);
                assert(keys[i] == k);
            }
            if k == keys.last() { assert(keys[keys.len() - 1] == k); }
        }
    }
}
pub open spec fn keys_ok<Q: Queue>(keys: Seq<u64>, m: Map<u64, Q>) -> bool {
    forall|k: int, i: int| 0 <= k < keys.len() && 0 <= i < m[keys[k]].items().len() ==> (#[trigger] m[keys[k]].items()[i]).iok(keys[k])
}
pub proof fn queues_rt<Q: Queue>(keys: Seq<u64>, m: Map<u64, Q>, out: Seq<u8>, rest: Seq<u8>, j: nat, acc: Map<u64, Q>)
    requires queues_enc(keys, m, out), keys_ok(keys, m),
    ensures queues_dec::<Q>(out + rest, (keys.len() + j) as nat, acc) == queues_dec::<Q>(rest, j, queues_put(keys, m, acc)),
    decreases keys.len(),
{
    broadcast use seq_assoc;
    if keys.len() == 0 {
        assert(out + rest =~= rest);
    } else {
        let (a, x) = choose|a: Seq<u8>, x: Seq<u8>| #[trigger] cat2(out, a, x) && queues_enc(keys.drop_last(), m, a) && queue_enc(keys.last(), m[keys.last()].items(), x);
        let id = keys.last();
        let s = m[id].items();
        let k = keys.len() - 1;
        assert(keys[k] == id);
        let e = choose|e: Seq<u8>| #[trigger] items_enc(s, e) && s.len() <= u64::MAX && x == id.vi_enc() + ((s.len() as u64).vi_enc() + e);
        let n = (s.len() as u64).vi_enc();
        assert(out + rest =~= a + (x + rest));
        assert(x + rest =~= id.vi_enc() + (n + (e + rest)));
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).iok(id) by { assert(m[keys[k]].items()[i].iok(keys[k])); }
        assert(keys_ok(keys.drop_last(), m)) by {
            assert forall|k: int, i: int| 0 <= k < keys.drop_last().len() && 0 <= i < m[keys.drop_last()[k]].items().len()
                implies (#[trigger] m[keys.drop_last()[k]].items()[i]).iok(keys.drop_last()[k]) by { assert(m[keys[k]].items()[i].iok(keys[k])); }
        }
        queues_rt(keys.drop_last(), m, a, x + rest, j + 1, acc);
        u64_rt(id, id.vi_enc(), n + (e + rest));
        u64_rt(s.len() as u64, n, e + rest);
        items_rt(id, s, e, rest, 0, Seq::empty());
        assert(Seq::<Q::T>::empty() + s =~= s);
        let acc2 = queues_put(keys.drop_last(), m, acc);
        assert(queue_dec::<Q>(x + rest, acc2) == Some((acc2.insert(id, Q::make(s)), rest)));
    }
}
/// All the queues, after their number, in any order.
pub open spec fn queues_enc_all<Q: Queue>(m: Map<u64, Q>, out: Seq<u8>) -> bool {
    exists|keys: Seq<u64>, e: Seq<u8>| {
        &&& keys.no_duplicates()
        &&& keys.to_set() == m.dom()
        &&& keys.len() <= u64::MAX
        &&& #[trigger] queues_enc(keys, m, e)
        &&& out == (keys.len() as u64).vi_enc() + e
    }
}
pub open spec fn queues_dec_all<Q: Queue>(b: Seq<u8>) -> Option<(Map<u64, Q>, Seq<u8>)> {
    match u64::dec(b) {
        None => None,
        Some((n, b)) => queues_dec::<Q>(b, n as nat, Map::empty()),
    }
}
pub proof fn queues_all_rt<Q: Queue>(m: Map<u64, Q>, out: Seq<u8>, rest: Seq<u8>)
    requires
        queues_enc_all(m, out),
        forall|id: u64, i: int| m.contains_key(id) && 0 <= i < m[id].items().len() ==> (#[trigger] m[id].items()[i]).iok(id),
    ensures
        queues_dec_all::<Q>(out + rest) is Some,
        queues_dec_all::<Q>(out + rest)->Some_0.1 == rest,
        queues_dec_all::<Q>(out + rest)->Some_0.0.dom() == m.dom(),
        forall|id: u64| m.contains_key(id) ==> (#[trigger] queues_dec_all::<Q>(out + rest)->Some_0.0[id]).items() == m[id].items(),
{
    broadcast use seq_assoc;
    let (keys, e) = choose|keys: Seq<u64>, e: Seq<u8>| {
        &&& keys.no_duplicates()
        &&& keys.to_set() == m.dom()
        &&& keys.len() <= u64::MAX
        &&& #[trigger] queues_enc(keys, m, e)
        &&& out == (keys.len() as u64).vi_enc() + e
    };
    let n = (keys.len() as u64).vi_enc();
    assert(out + rest =~= n + (e + rest));
    u64_rt(keys.len() as u64, n, e + rest);
    assert(keys_ok(keys, m)) by {
        assert forall|k: int, i: int| 0 <= k < keys.len() && 0 <= i < m[keys[k]].items().len()
            implies (#[trigger] m[keys[k]].items()[i]).iok(keys[k]) by {
            assert(keys.to_set().contains(keys[k]));
        }
    }
    queues_rt(keys, m, e, rest, 0, Map::empty());
    queues_put_all(keys, m);
    assert forall|id: u64| m.contains_key(id) implies keys.contains(id) by { assert(keys.to_set().contains(id)); }
}
