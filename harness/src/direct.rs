//! Checks that are not about editing histories.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

use cola::{
    Anchor, AnchorBias, DecodeError, Deletion, EncodedReplica, Insertion,
    Replica,
};
use sha2::{Digest, Sha256};

use crate::{last_panic, Rng};

type Res = (u64, Result<(), String>);

pub fn run(prop: &'static str, seed: u64, secs: f64) -> Res {
    let mut rng = Rng::new(seed ^ 0xd1ec7);
    let f: fn(&mut Rng, u64) -> Result<(), String> = match prop {
        "C08" => messages,
        "C09" => corruption,
        "C10" => any_bytes,
        #[cfg(feature = "hooks")]
        "C11" => vectors,
        "C13" => arguments,
        _ => return (0, Ok(())),
    };
    // The number of cases, not the clock, decides what is tried first, so
    // that a run can be repeated.
    let t0 = Instant::now();
    let share = if matches!(prop, "C08" | "C13") { 0.6 } else { 1.0 };
    let mut n = 0;
    while n < 20 || t0.elapsed().as_secs_f64() < secs * share {
        let r = match catch_unwind(AssertUnwindSafe(|| f(&mut rng, n))) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", last_panic())),
        };
        n += 1;
        if let Err(e) = r {
            return (n, Err(format!("case {n}: {e}")));
        }
    }
    (n, Ok(()))
}

const IDS: [u64; 8] =
    [1, 2, 127, 128, 70_000, 1 << 32, 1 << 63, u64::MAX];

/// A replica with some history, and a few messages it has not seen.
pub fn some_replica(rng: &mut Rng) -> (Replica, Vec<Insertion>, Vec<Deletion>) {
    let len = [0, 1, 5, 40, 300, 1 << 31, 1 << 40, usize::MAX / 4][rng.below(8)];
    let mut a = Replica::new(IDS[rng.below(8)], len);
    let mut id = 1000 + rng.below(1000) as u64;
    let mut b = a.fork(id);
    let (mut ins, mut del) = (vec![], vec![]);
    let steps = [0, 3, 10, 60, 200][rng.below(5)];
    for _ in 0..steps {
        let r = if rng.chance(1, 2) { &mut a } else { &mut b };
        let n = r.len();
        if rng.chance(3, 5) {
            let l = [1, 1, 2, 3, 7, 300, 1 << 20][rng.below(7)];
            ins.push(r.inserted(at(rng, n), l));
        } else if n > 0 {
            let s = at(rng, n - 1);
            let max = (n - s).min([1, 2, 5, 1 << 20, usize::MAX][rng.below(5)]);
            let e = s + 1 + (rng.next() as usize) % max;
            del.push(r.deleted(s..e));
        }
        if rng.chance(1, 3) {
            for i in &ins {
                if rng.chance(2, 3) {
                    let _ = a.integrate_insertion(i);
                }
                if rng.chance(2, 3) {
                    let _ = b.integrate_insertion(i);
                }
            }
            for d in &del {
                if rng.chance(2, 3) {
                    let _ = a.integrate_deletion(d);
                }
                if rng.chance(2, 3) {
                    let _ = b.integrate_deletion(d);
                }
            }
            if rng.chance(1, 2) {
                a.backlogged_insertions().for_each(drop);
                a.backlogged_deletions().for_each(drop);
            }
        }
        if rng.chance(1, 30) {
            id += 1;
            b = a.fork(id);
        }
    }
    (a, ins, del)
}

/// An offset in 0..=n, often at the ends.
fn at(rng: &mut Rng, n: usize) -> usize {
    match rng.below(6) {
        0 => 0,
        1 => n,
        2 => n.min(1 + rng.below(3)),
        _ => (rng.next() as usize) % n.max(1),
    }
}

fn both<T>(v: &T, what: &str) -> Result<(), String>
where
    T: serde::Serialize
        + serde::de::DeserializeOwned
        + PartialEq
        + std::fmt::Debug,
{
    let b: T =
        crate::world::round_trip(v, what).map_err(|f| f.what)?;
    if b != *v {
        return Err(format!("{what} {v:?} became {b:?}"));
    }
    let s = serde_json::to_vec(v).map_err(|e| format!("{what}: {e}"))?;
    let b: T = serde_json::from_slice(&s)
        .map_err(|e| format!("{what} {v:?}: {e}"))?;
    if b != *v {
        return Err(format!("{what} {v:?} became {b:?} through a sequence"));
    }
    Ok(())
}

fn messages(rng: &mut Rng, _: u64) -> Result<(), String> {
    let (r, ins, del) = some_replica(rng);
    for i in &ins {
        both(i, "insertion")?;
    }
    for d in &del {
        both(d, "deletion")?;
    }
    for _ in 0..20 {
        let o = at(rng, r.len());
        for b in [AnchorBias::Left, AnchorBias::Right] {
            both(&r.create_anchor(o, b), "anchor")?;
        }
    }
    for e in [
        r.clone().inserted(0, 0),
    ] {
        both(&e, "insertion")?;
    }
    both(&r.clone().deleted(0..0), "deletion")?;
    Ok(())
}

fn corruption(rng: &mut Rng, _: u64) -> Result<(), String> {
    let (r, ..) = some_replica(rng);
    let enc = r.encode();
    let good = enc.as_bytes().to_vec();
    let dec = |b: &[u8]| Replica::decode(5, &EncodedReplica::from_bytes(b));
    if let Err(e) = dec(&good) {
        return Err(format!("unaltered bytes are rejected: {e}"));
    }
    let test = |b: &[u8], what: String| -> Result<(), String> {
        match catch_unwind(AssertUnwindSafe(|| dec(b))) {
            Err(_) => {
                Err(format!("{what}: decoding panicked: {}", last_panic()))
            },
            Ok(Ok(_)) => Err(format!("{what}: decoded without an error")),
            Ok(Err(e)) => {
                // A change past the version number is caught by the checksum
                // (or is too short to have one).
                let same_version = b.first() == good.first();
                let ok = match e {
                    DecodeError::DifferentProtocol {
                        encoded_on,
                        decoding_on,
                    } => !same_version && encoded_on != decoding_on,
                    DecodeError::ChecksumFailed => b.len() > 32,
                    DecodeError::InvalidData => {
                        b.len() < 33 || !same_version
                    },
                };
                if ok {
                    Ok(())
                } else {
                    Err(format!("{what}: reported as {e:?}"))
                }
            },
        }
    };
    let n = good.len();
    // every byte of the header and a sample of the payload, a few values each
    let mut places: Vec<usize> = (0..n.min(48)).collect();
    for _ in 0..60 {
        places.push(rng.below(n));
    }
    places.push(n - 1);
    for p in places {
        for k in 0..4 {
            let mut b = good.clone();
            b[p] = match k {
                0 => b[p] ^ (1 << rng.below(8)),
                1 => b[p].wrapping_add(1),
                2 => !b[p],
                _ => rng.next() as u8,
            };
            if b != good {
                test(&b, format!("byte {p} of {n} changed"))?;
            }
        }
    }
    for _ in 0..40 {
        let mut b = good.clone();
        for _ in 0..2 + rng.below(4) {
            let p = rng.below(n);
            b[p] = rng.next() as u8;
        }
        if b != good {
            test(&b, format!("several bytes of {n} changed"))?;
        }
        let mut b = good.clone();
        b.truncate(if rng.chance(1, 2) {
            rng.below(n)
        } else {
            n - 1 - rng.below(n.min(40))
        });
        test(&b, format!("truncated from {n} to {} bytes", b.len()))?;
        let mut b = good.clone();
        for _ in 0..1 + rng.below(4) {
            b.push(rng.next() as u8);
        }
        test(&b, format!("extended from {n} to {} bytes", b.len()))?;
        let mut b = good.clone();
        let (p, q) = (rng.below(n), rng.below(n));
        b.swap(p, q);
        if b != good {
            test(&b, format!("bytes {p} and {q} of {n} swapped"))?;
        }
    }
    // other protocol versions
    for v in [0u8, 1, 2, 4, 5, 100] {
        let mut b = good.clone();
        b[0] = v;
        match dec(&b) {
            Err(DecodeError::DifferentProtocol { encoded_on, .. })
                if u64::from(encoded_on) == u64::from(v) => {},
            Err(e) => {
                return Err(format!("protocol version {v} is reported as {e:?}"))
            },
            Ok(_) => {
                return Err(format!("protocol version {v} is accepted"))
            },
        }
    }
    Ok(())
}

fn varint(mut v: u64) -> Vec<u8> {
    let mut b = vec![];
    loop {
        if v < 128 {
            b.push(v as u8);
            return b;
        }
        b.push(v as u8 | 128);
        v >>= 7;
    }
}

fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + rng.below(3) {
        if b.is_empty() {
            b.push(rng.next() as u8);
            continue;
        }
        let p = rng.below(b.len());
        match rng.below(9) {
            0 => b[p] = rng.next() as u8,
            1 => b[p] ^= 1 << rng.below(8),
            2 => b[p] = b[p].wrapping_add(1),
            3 => b[p] = b[p].wrapping_sub(1),
            4 => {
                // a small field becomes a big one
                let v = [u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 300]
                    [rng.below(5)];
                b.splice(p..p + 1, varint(v));
            },
            5 => b.truncate(p),
            6 => {
                b.remove(p);
            },
            7 => b.insert(p, rng.below(40) as u8),
            _ => {
                let q = rng.below(b.len());
                b.swap(p, q);
            },
        }
    }
}

fn any_bytes(rng: &mut Rng, _: u64) -> Result<(), String> {
    let (r, ins, del) = some_replica(rng);
    let good = r.encode().as_bytes().to_vec();
    let head = 33;
    let check = |what: &str, b: &[u8], f: &dyn Fn()| -> Result<(), String> {
        crate::alloc::reset();
        let ok = catch_unwind(AssertUnwindSafe(f)).is_ok();
        let peak = crate::alloc::biggest();
        if !ok {
            return Err(format!(
                "decoding {what} from {b:?} panicked: {}",
                last_panic()
            ));
        }
        if peak > 4096 * b.len() + (1 << 20) {
            return Err(format!(
                "decoding {what} from {} bytes allocated {peak} at once",
                b.len()
            ));
        }
        Ok(())
    };
    for k in 0..60 {
        // a replica with a correct checksum but a wrong payload
        let mut p = if good.len() > head && good.len() < 20_000 {
            good[head..].to_vec()
        } else {
            vec![]
        };
        if k % 10 == 0 {
            p = (0..rng.below(40)).map(|_| rng.next() as u8).collect();
        } else {
            mutate(rng, &mut p);
        }
        let mut b = good[..1].to_vec();
        b.extend_from_slice(&Sha256::digest(&p));
        b.extend_from_slice(&p);
        check("a replica", &b, &|| {
            let _ = Replica::decode(5, &EncodedReplica::from_bytes(&b));
        })?;
        // the same without fixing the checksum
        let mut b = good.clone();
        mutate(rng, &mut b);
        check("a replica", &b, &|| {
            let _ = Replica::decode(5, &EncodedReplica::from_bytes(&b));
        })?;
    }
    let cfg = bincode::config::standard();
    let raw = |v: Vec<u8>| -> Vec<u8> {
        bincode::serde::encode_to_vec(Bytes(v), cfg).unwrap()
    };
    let body = |v: Vec<u8>| -> Vec<u8> {
        let (b, _): (Bytes, _) =
            bincode::serde::decode_from_slice(&v, cfg).unwrap();
        b.0
    };
    for k in 0..60 {
        let seed_bytes = |rng: &mut Rng| -> Vec<u8> {
            match rng.below(4) {
                0 if !ins.is_empty() => body(
                    bincode::serde::encode_to_vec(
                        &ins[rng.below(ins.len())],
                        cfg,
                    )
                    .unwrap(),
                ),
                1 if !del.is_empty() => body(
                    bincode::serde::encode_to_vec(
                        &del[rng.below(del.len())],
                        cfg,
                    )
                    .unwrap(),
                ),
                2 => body(
                    bincode::serde::encode_to_vec(
                        r.create_anchor(at(rng, r.len()), AnchorBias::Left),
                        cfg,
                    )
                    .unwrap(),
                ),
                _ => (0..rng.below(30)).map(|_| rng.next() as u8).collect(),
            }
        };
        let mut b = seed_bytes(rng);
        if k % 5 > 0 {
            mutate(rng, &mut b);
        }
        let e = raw(b.clone());
        let again = |what: &str| format!("{what} that was decoded");
        check("an insertion", &b, &|| {
            let _ = bincode::serde::decode_from_slice::<Insertion, _>(&e, cfg);
        })?;
        check("a deletion", &b, &|| {
            let _ = bincode::serde::decode_from_slice::<Deletion, _>(&e, cfg);
        })?;
        check("an anchor", &b, &|| {
            let _ = bincode::serde::decode_from_slice::<Anchor, _>(&e, cfg);
        })?;
        check("an encoded replica", &b, &|| {
            if let Ok((x, _)) = bincode::serde::decode_from_slice::<
                EncodedReplica<'static>,
                _,
            >(&e, cfg)
            {
                let _ = Replica::decode(5, &x);
            }
        })?;
        let _ = again;
    }
    Ok(())
}

struct Bytes(Vec<u8>);

impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

impl<'de> serde::Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(v.to_vec()))
            }
        }
        d.deserialize_bytes(V)
    }
}

#[cfg(feature = "hooks")]
fn vectors(rng: &mut Rng, _: u64) -> Result<(), String> {
    use std::cmp::Ordering;
    use std::collections::BTreeMap;

    use cola::verif::{version_cmp, version_fork, version_get, Vector};
    for _ in 0..2000 {
        let pool = 1 + rng.below(5);
        let big = rng.chance(1, 3);
        let value = |rng: &mut Rng| -> usize {
            if big {
                [0, 1, usize::MAX - 1, usize::MAX, 1 << 33][rng.below(5)]
            } else {
                rng.below(3)
            }
        };
        let one = |rng: &mut Rng| -> Vector {
            let id = |rng: &mut Rng| IDS[rng.below(pool)];
            let this = id(rng);
            let v = value(rng);
            let rest = (0..rng.below(pool + 2))
                .map(|_| (id(rng), value(rng)))
                .collect();
            (this, v, rest)
        };
        let a = one(rng);
        let mut b = one(rng);
        if rng.chance(1, 3) {
            // nearly equal
            b = (a.0, a.1, a.2.clone());
            if rng.chance(1, 2) {
                b.2.push((IDS[rng.below(pool)], value(rng)));
            }
        }
        let model = |v: &Vector| -> BTreeMap<u64, usize> {
            let mut m: BTreeMap<u64, usize> =
                v.2.iter().filter(|x| x.0 != v.0).copied().collect();
            m.insert(v.0, v.1);
            m
        };
        let (ma, mb) = (model(&a), model(&b));
        let get = |m: &BTreeMap<u64, usize>, i: &u64| {
            m.get(i).copied().unwrap_or(0)
        };
        let le = IDS.iter().all(|i| get(&ma, i) <= get(&mb, i));
        let ge = IDS.iter().all(|i| get(&ma, i) >= get(&mb, i));
        let want = match (le, ge) {
            (true, true) => Some(Ordering::Equal),
            (true, false) => Some(Ordering::Less),
            (false, true) => Some(Ordering::Greater),
            _ => None,
        };
        let got = version_cmp(&a, &b);
        if got != want {
            return Err(format!("{a:?} against {b:?} gives {got:?}"));
        }
        let new = 999;
        let ids: Vec<u64> = IDS.iter().copied().chain([new]).collect();
        let want: Vec<usize> = ids.iter().map(|i| get(&ma, i)).collect();
        if version_get(&a, &ids) != want {
            return Err(format!("lookups in {a:?} give {:?}", version_get(&a, &ids)));
        }
        if version_fork(&a, new, &ids) != want {
            return Err(format!("a fork of {a:?} has {:?}", version_fork(&a, new, &ids)));
        }
    }
    Ok(())
}

/// A document about as long as one can be, edited in a small part of it.
fn very_long(rng: &mut Rng) -> Result<(), String> {
    // How many more characters the first replica has names for.
    let mut room = rng.below(12);
    let mut a = Replica::new(1, usize::MAX - room);
    let mut b = a.fork(2);
    let base = [0, 1 << 20, usize::MAX / 2, usize::MAX - 600][rng.below(4)];
    for step in 0..60 {
        let o = base + rng.below(120);
        let n = a.len();
        let r = catch_unwind(AssertUnwindSafe(|| {
            if room > 0 && rng.below(6) == 0 {
                room -= 1;
                let what = format!("inserted({o}, 1)");
                let i = a.inserted(o, 1);
                (what, n + 1, b.integrate_insertion(&i) == Some(o))
            } else {
                let l = 1 + rng.below(3);
                let what = format!("deleted({o}..{})", o + l);
                let d = a.deleted(o..o + l);
                (what, n - l, b.integrate_deletion(&d) == [o..o + l])
            }
        }));
        let (what, len, same) = r.map_err(|_| {
            format!("step {step} at {o} of length {n} panicked: {}", last_panic())
        })?;
        if a.len() != len || b.len() != len || !same {
            return Err(format!(
                "{what} of length {n} made lengths {} and {}, in place: {same}",
                a.len(),
                b.len()
            ));
        }
        let bias = [AnchorBias::Left, AnchorBias::Right][rng.below(2)];
        let r = catch_unwind(AssertUnwindSafe(|| {
            let x = a.create_anchor(o, bias);
            (a.resolve_anchor(x), b.resolve_anchor(x))
        }));
        match r {
            Ok((x, y)) if x == Some(o) && y == x => {},
            Ok(x) => return Err(format!("anchor at {o} of {len}: {x:?}")),
            Err(_) => {
                return Err(format!(
                    "anchor at {o} of {len} panicked: {}",
                    last_panic()
                ))
            },
        }
    }
    Ok(())
}

fn arguments(rng: &mut Rng, _: u64) -> Result<(), String> {
    if rng.below(8) == 0 {
        return very_long(rng);
    }
    use std::ops::Bound::*;
    let (r, ..) = some_replica(rng);
    let n = r.len();
    let panics = |f: &mut dyn FnMut()| {
        catch_unwind(AssertUnwindSafe(|| f())).is_err()
    };
    let expect = |what: String, want: bool, got: bool| {
        if want == got {
            Ok(())
        } else if want {
            Err(format!("{what} (length {n}) did not panic"))
        } else {
            Err(format!("{what} (length {n}) panicked: {}", last_panic()))
        }
    };
    let offs = [
        0,
        at(rng, n),
        n.saturating_sub(1),
        n,
        n.saturating_add(1),
        n.saturating_add(7),
        usize::MAX - 1,
        usize::MAX,
    ];
    let max_room = usize::MAX - n;
    for &o in &offs {
        for len in [0, 1, 3] {
            if len > max_room {
                continue;
            }
            let mut c = r.clone();
            expect(
                format!("inserted({o}, {len})"),
                o > n,
                panics(&mut || {
                    let i = c.inserted(o, len);
                    drop(i);
                }),
            )?;
            if o <= n {
                let mut c = r.clone();
                let i = c.inserted(o, len);
                if c.len() != n + len {
                    return Err(format!(
                        "inserted({o}, {len}) made length {n} {}",
                        c.len()
                    ));
                }
                if len == 0 {
                    if !c.eq_decoded(&r) {
                        return Err("an empty insertion changed it".into());
                    }
                    let mut p = r.fork(4242);
                    if p.integrate_insertion(&i).is_some()
                        || !p.eq_decoded(&r)
                        || p.backlogged_insertions().next().is_some()
                            != r.clone().backlogged_insertions().next().is_some()
                    {
                        return Err(
                            "an empty insertion has an effect when merged"
                                .into(),
                        );
                    }
                }
            }
        }
        for b in [AnchorBias::Left, AnchorBias::Right] {
            expect(
                format!("create_anchor({o}, {b:?})"),
                o > n,
                panics(&mut || {
                    let _ = r.create_anchor(o, b);
                }),
            )?;
        }
    }
    let mut bounds = vec![Unbounded];
    for &o in &offs {
        bounds.push(Included(o));
        bounds.push(Excluded(o));
    }
    for &s in &bounds {
        for &e in &bounds {
            // as mathematical integers
            let start: u128 = match s {
                Unbounded => 0,
                Included(x) => x as u128,
                Excluded(x) => x as u128 + 1,
            };
            let end: u128 = match e {
                Unbounded => n as u128,
                Included(x) => x as u128 + 1,
                Excluded(x) => x as u128,
            };
            let bad = end > n as u128 || start > end;
            let mut c = r.clone();
            let mut d = None;
            let got = panics(&mut || d = Some(c.deleted((s, e))));
            expect(format!("deleted(({s:?}, {e:?}))"), bad, got)?;
            if bad {
                continue;
            }
            let d = d.unwrap();
            let (start, end) = (start as usize, end as usize);
            if c.len() != n - (end - start) {
                return Err(format!(
                    "deleted(({s:?}, {e:?})) made length {n} {}",
                    c.len()
                ));
            }
            if start == end {
                if !c.eq_decoded(&r) {
                    return Err("an empty deletion changed it".into());
                }
                let mut p = r.fork(4242);
                if !p.integrate_deletion(&d).is_empty() || !p.eq_decoded(&r) {
                    return Err(
                        "an empty deletion has an effect when merged".into()
                    );
                }
            } else {
                let mut c2 = r.clone();
                let d2 = c2.deleted(start..end);
                if d2 != d || !c.eq_decoded(&c2) {
                    return Err(format!(
                        "deleted(({s:?}, {e:?})) is not deleted({start}..{end})"
                    ));
                }
            }
        }
    }
    let id = r.id();
    let enc = r.encode();
    for new in [0, 1, id, 77, u64::MAX] {
        expect(
            format!("fork({new}) of {id}"),
            new == 0 || new == id,
            panics(&mut || {
                let _ = r.fork(new);
            }),
        )?;
        expect(
            format!("decode({new}, ..)"),
            new == 0,
            panics(&mut || {
                let _ = Replica::decode(new, &enc);
            }),
        )?;
        for len in [0, 1, usize::MAX] {
            expect(
                format!("new({new}, {len})"),
                new == 0,
                panics(&mut || {
                    let x = Replica::new(new, len);
                    assert!(x.len() == len && x.id() == new);
                }),
            )?;
        }
    }
    Ok(())
}
