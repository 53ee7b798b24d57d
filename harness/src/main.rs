//! Runs real `cola` replicas against the reference semantics of world.rs.
//!
//!   cola-vharness search <property|all> <seed> <seconds> <replay-out>
//!   cola-vharness replay <file>
mod alloc;
mod direct;
mod world;

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

use world::*;

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}

#[derive(Clone)]
struct History {
    nodes: usize,
    len: usize,
    ops: Vec<Op>,
    /// Seed of the delivery order of the final flush.
    flush: u64,
}

fn run_op(w: &mut World, op: Op) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| w.apply(op))) {
        Ok(r) => r,
        Err(_) => Err(Fail {
            kind: match op {
                Op::Ins(..) | Op::Del(..) => Kind::PanicLocal,
                Op::Deliver(..) | Op::DrainIns(_) | Op::DrainDel(_) => {
                    Kind::PanicMerge
                },
                Op::Fork(_) => Kind::PanicFork,
                Op::Reload(_) => Kind::PanicReload,
                Op::MkAnchor(..) => Kind::PanicAnchor,
            },
            what: format!("`{op}` panicked: {}", last_panic()),
        }),
    }
}

/// Is this operation legal in this world?
fn legal(w: &World, op: Op) -> bool {
    let nd = |n: usize| w.nodes.get(n);
    match op {
        Op::Ins(n, o, _) => nd(n).map_or(false, |x| o <= x.doc.len()),
        Op::Del(n, a, b) => {
            nd(n).map_or(false, |x| a <= b && b <= x.doc.len())
        },
        Op::Deliver(n, m) => nd(n).is_some() && m < w.msgs.len(),
        Op::MkAnchor(n, o, _) => nd(n).map_or(false, |x| o <= x.doc.len()),
        Op::DrainIns(n)
        | Op::DrainDel(n)
        | Op::Fork(n)
        | Op::Reload(n) => nd(n).is_some(),
    }
}

fn run(h: &History, cfg: Cfg) -> Result<World, (usize, Fail)> {
    let mut w = World::new(h.nodes, h.len, cfg);
    for (i, &op) in h.ops.iter().enumerate() {
        if !legal(&w, op) {
            continue;
        }
        run_op(&mut w, op).map_err(|e| (i, e))?;
    }
    let n = h.ops.len();
    let mut rng = Rng::new(h.flush);
    match catch_unwind(AssertUnwindSafe(|| w.flush(|k| rng.below(k)))) {
        Ok(Ok(())) => Ok(w),
        Ok(Err(e)) => Err((n, e)),
        Err(_) => Err((
            n,
            Fail {
                kind: Kind::PanicMerge,
                what: format!("final delivery panicked: {}", last_panic()),
            },
        )),
    }
}

/// A shape of random histories.
#[derive(Clone, Copy)]
struct Shape {
    nodes: usize,
    len: usize,
    ops: usize,
    ins: usize,
    del: usize,
    deliver: usize,
    drain: usize,
    fork: usize,
    reload: usize,
    anchor: usize,
    max_ins: usize,
    /// Percent of inserts that continue the previous one.
    typing: usize,
    /// Percent of deliveries that pick the next in-order message.
    in_order: usize,
}

fn shape(prop: &str, rng: &mut Rng) -> Shape {
    let k = match (prop, rng.below(10)) {
        ("C07" | "C15", 5..) => 5,
        ("C06", 6..) => 7,
        ("C05", 6..) => 1,
        ("C04", 6..) => 2,
        (_, k) => k,
    };
    let mut s = Shape {
        nodes: 2 + rng.below(3),
        len: [0, 1, 2, 5, 12][rng.below(5)],
        ops: 10 + rng.below(50),
        ins: 30,
        del: 18,
        deliver: 38,
        drain: 8,
        fork: 1,
        reload: 1,
        anchor: 4,
        max_ins: 4,
        typing: 35,
        in_order: 60,
    };
    match k {
        0 => s.ops = 200 + rng.below(300),
        1 => {
            s.in_order = 10;
            s.drain = 4;
        },
        2 => {
            s.del = 40;
            s.max_ins = 10;
            s.len = 30;
        },
        3 => {
            s.deliver = 8;
            s.drain = 2;
        },
        4 => {
            // many small pieces: deep trees, many fragments of one run
            s.len = 120;
            s.max_ins = 1;
            s.ops = 150 + rng.below(150);
            s.typing = 5;
            s.in_order = 95;
            s.nodes = 2;
        },
        5 => {
            s.fork = 6;
            s.reload = 6;
        },
        6 => {
            s.ops = 5 + rng.below(8);
        },
        7 => s.anchor = 25,
        _ => {},
    }
    s
}

fn gen_op(w: &World, s: &Shape, rng: &mut Rng, last: &mut Vec<usize>) -> Op {
    let total = s.ins + s.del + s.deliver + s.drain + s.fork + s.reload
        + s.anchor;
    loop {
        let n = rng.below(w.nodes.len());
        let len = w.nodes[n].doc.len();
        last.resize(w.nodes.len(), 0);
        let mut k = rng.below(total);
        if k < s.ins {
            let off = if rng.chance(s.typing, 100) {
                last[n].min(len)
            } else {
                rng.below(len + 1)
            };
            let l = if rng.chance(1, 60) {
                0
            } else {
                1 + rng.below(s.max_ins)
            };
            last[n] = off + l;
            return Op::Ins(n, off, l);
        }
        k -= s.ins;
        if k < s.del {
            let a = rng.below(len + 1);
            let max = (len - a).min(if rng.chance(1, 4) { len } else { 5 });
            let b = a + rng.below(max + 1);
            if a == b && !rng.chance(1, 20) {
                continue;
            }
            return Op::Del(n, a, b);
        }
        k -= s.del;
        if k < s.deliver {
            if w.msgs.is_empty() {
                continue;
            }
            if rng.chance(s.in_order, 100) {
                let Some(m) =
                    (0..w.msgs.len()).find(|&m| w.is_new(n, m))
                else {
                    continue;
                };
                return Op::Deliver(n, m);
            }
            return Op::Deliver(n, rng.below(w.msgs.len()));
        }
        k -= s.deliver;
        if k < s.drain {
            return if rng.chance(1, 2) {
                Op::DrainIns(n)
            } else {
                Op::DrainDel(n)
            };
        }
        k -= s.drain;
        if k < s.fork {
            if w.nodes.len() >= 6 {
                continue;
            }
            return Op::Fork(n);
        }
        k -= s.fork;
        if k < s.reload {
            if w.nodes.len() >= 6 {
                continue;
            }
            return Op::Reload(n);
        }
        if w.anchors.len() >= 12 {
            continue;
        }
        return Op::MkAnchor(n, rng.below(len + 1), rng.chance(1, 2));
    }
}

fn random_history(
    prop: &str,
    seed: u64,
    cfg: Cfg,
) -> (History, Result<World, (usize, Fail)>) {
    let mut rng = Rng::new(seed);
    let s = shape(prop, &mut rng);
    let mut h = History {
        nodes: s.nodes,
        len: s.len,
        ops: vec![],
        flush: rng.next(),
    };
    let mut w = World::new(h.nodes, h.len, cfg);
    let mut last = vec![];
    for _ in 0..s.ops {
        let op = gen_op(&w, &s, &mut rng, &mut last);
        h.ops.push(op);
        if let Err(e) = run_op(&mut w, op) {
            let i = h.ops.len() - 1;
            return (h, Err((i, e)));
        }
    }
    let mut frng = Rng::new(h.flush);
    let n = h.ops.len();
    let r = match catch_unwind(AssertUnwindSafe(|| w.flush(|k| frng.below(k))))
    {
        Ok(Ok(())) => Ok(w),
        Ok(Err(e)) => Err((n, e)),
        Err(_) => Err((
            n,
            Fail {
                kind: Kind::PanicMerge,
                what: format!("final delivery panicked: {}", last_panic()),
            },
        )),
    };
    (h, r)
}

/// Makes a failing history smaller while it fails with the same kind.
fn shrink(prop: &str, h: &History, kind: Kind) -> (History, Fail) {
    let fails = |h: &History| match judge(prop, h) {
        Err((i, f)) if f.kind == kind => Some((i, f)),
        _ => None,
    };
    let mut best = h.clone();
    let Some((i, mut f)) = fails(&best) else {
        return (h.clone(), Fail { kind, what: "not reproducible".into() });
    };
    best.ops.truncate(i + 1);
    let t0 = Instant::now();
    let mut size = (best.ops.len() / 2).max(1);
    while t0.elapsed() < Duration::from_secs(10) {
        let mut changed = false;
        let mut i = 0;
        while i < best.ops.len() {
            if t0.elapsed() > Duration::from_secs(10) {
                break;
            }
            let mut c = best.clone();
            // Removing a message-creating operation renumbers the messages
            // after it; adjust the deliveries.
            let hi = (i + size).min(c.ops.len());
            let mut kept = vec![];
            let mut map: Vec<Option<usize>> = vec![];
            let mut next = 0;
            for (j, op) in best.ops.iter().enumerate() {
                let gone = j >= i && j < hi;
                let makes = matches!(op, Op::Ins(..) | Op::Del(..));
                if makes {
                    map.push(if gone { None } else { Some(next) });
                    if !gone {
                        next += 1;
                    }
                }
                if gone {
                    continue;
                }
                match *op {
                    Op::Deliver(n, m) => {
                        if let Some(Some(m)) = map.get(m) {
                            kept.push(Op::Deliver(n, *m));
                        }
                    },
                    op => kept.push(op),
                }
            }
            c.ops = kept;
            if let Some((k, ff)) = fails(&c) {
                c.ops.truncate(k + 1);
                best = c;
                f = ff;
                changed = true;
            } else {
                i += size;
            }
        }
        if !changed {
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
    }
    (best, f)
}

fn render(prop: &str, h: &History, f: &Fail) -> String {
    let mut s = format!("property {prop}\n");
    s += &format!("# kind {:?}\n# {}\n", f.kind, f.what.replace('\n', " "));
    s += &format!("world {} {}\nflush {}\n", h.nodes, h.len, h.flush);
    for op in &h.ops {
        s += &format!("{op}\n");
    }
    s
}

fn parse(s: &str) -> Option<(String, History)> {
    let mut prop = "all".to_string();
    let mut h = History { nodes: 1, len: 0, ops: vec![], flush: 0 };
    for l in s.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let t: Vec<&str> = l.split_whitespace().collect();
        match t[0] {
            "world" => {
                h.nodes = t[1].parse().ok()?;
                h.len = t[2].parse().ok()?;
            },
            "property" => prop = t[1].to_string(),
            "flush" => h.flush = t[1].parse().ok()?,
            _ => h.ops.push(parse_op(l)?),
        }
    }
    Some((prop, h))
}

/// What the check of one property looks for in histories.
fn plan(prop: &str) -> Option<(Cfg, &'static [Kind])> {
    use Kind::*;
    let kinds: &'static [Kind] = match prop {
        "C01" => &[Diverge, PanicMerge, PanicLocal],
        "C02" => &[Local, PanicLocal],
        "C03" => &[Offset, PanicMerge],
        "C04" => &[DelSet, PanicMerge],
        "C05" => &[Gate, PanicMerge],
        "C06" => &[Anchor, PanicAnchor],
        "C07" => &[Reload, PanicReload],
        "C08" => &[Message],
        "C12" => &[Invariant, PanicLocal, PanicMerge],
        "C13" => &[PanicLocal, PanicAnchor, PanicFork, PanicReload],
        "C14" => &[Identity],
        "C15" => &[Fork, PanicFork],
        "all" => &[
            Diverge, Local, Offset, DelSet, Gate, Anchor, Reload, Message,
            Invariant, Identity, Fork, PanicLocal, PanicMerge, PanicFork,
            PanicReload, PanicAnchor,
        ],
        _ => return None,
    };
    let mask = kinds.iter().fold(0, |m, k| m | k.bit());
    let w = |k: Kind| mask & k.bit() != 0;
    let cfg = Cfg {
        check_invariants: w(Invariant),
        check_messages: w(Message),
        check_anchors: w(Anchor),
        check_order: w(Diverge) || w(Anchor),
        check_actual: w(Local) || w(Offset) || w(DelSet) || w(Gate),
        mask,
        lax: false,
        init_reload: false,
    };
    Some((cfg, kinds))
}

/// Replaces forks by reloads or the other way around.
fn twin(h: &History, cfg: Cfg, to_fork: bool) -> (History, Cfg) {
    let mut h = h.clone();
    for op in &mut h.ops {
        *op = match *op {
            Op::Fork(n) if !to_fork => Op::Reload(n),
            Op::Reload(n) if to_fork => Op::Fork(n),
            op => op,
        };
    }
    (h, Cfg { init_reload: !to_fork, ..cfg })
}

/// Runs a history and says whether it is evidence against the property.
fn judge(prop: &str, h: &History) -> Result<(), (usize, Fail)> {
    let (cfg, _) = plan(prop).unwrap();
    let (i, f) = match run(h, cfg) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    if f.kind == Kind::Inconclusive {
        return Ok(());
    }
    if cfg.wants(f.kind) {
        return Err((i, f));
    }
    match prop {
        "C01" => {
            // Something else went wrong; do the users' documents diverge?
            match run(h, Cfg { lax: true, ..cfg }) {
                Err((i, mut f)) if f.kind == Kind::Offset => {
                    f.kind = Kind::Diverge;
                    Err((i, f))
                },
                Err((i, f)) if cfg.wants(f.kind) => Err((i, f)),
                _ => Ok(()),
            }
        },
        "C07" => {
            let (t, c) = twin(h, cfg, true);
            match run(&t, c) {
                Ok(_) => Err((
                    i,
                    Fail {
                        kind: Kind::Reload,
                        what: format!(
                            "a decoded replica does not behave like a fork: \
                             {}",
                            f.what
                        ),
                    },
                )),
                Err(_) => Ok(()),
            }
        },
        "C15" => {
            let (t, c) = twin(h, cfg, false);
            match run(&t, c) {
                Ok(_) => Err((
                    i,
                    Fail {
                        kind: Kind::Fork,
                        what: format!(
                            "a fork does not behave like a decoded copy: {}",
                            f.what
                        ),
                    },
                )),
                Err(_) => Ok(()),
            }
        },
        _ => Ok(()),
    }
}

fn search(
    prop: &'static str,
    seed: u64,
    secs: f64,
    out: &str,
    threads: usize,
) -> (u64, u64, u64, String, Option<String>) {
    let t0 = Instant::now();
    let n = AtomicU64::new(0);
    let other = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<String>> = Mutex::new(None);
    let seen: Mutex<(HashSet<u64>, String)> = Default::default();
    let (cfg, _) = plan(prop).unwrap();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (n, other, stop, found, seen) =
                (&n, &other, &stop, &found, &seen);
            s.spawn(move || {
                let mut k = 0u64;
                let mut mine = HashSet::new();
                let mut sample = String::new();
                while t0.elapsed().as_secs_f64() < secs
                    && !stop.load(Ordering::Relaxed)
                {
                    let sd = Rng::new(
                        seed.wrapping_mul(0x1_0000_0001)
                            .wrapping_add((t as u64) << 40)
                            .wrapping_add(k),
                    )
                    .next();
                    k += 1;
                    let (h, r) = random_history(prop, sd, cfg);
                    n.fetch_add(1, Ordering::Relaxed);
                    let edits = |op: &Op| {
                        matches!(op, Op::Ins(_, _, 1..) | Op::Del(..))
                    };
                    let merges = |op: &Op| matches!(op, Op::Deliver(..));
                    if h.ops.iter().any(edits) && h.ops.iter().any(merges) {
                        let mut x = DefaultHasher::new();
                        (h.nodes, h.len, &h.ops).hash(&mut x);
                        mine.insert(x.finish());
                        if sample.is_empty() && h.ops.len() < 30 {
                            sample = h
                                .ops
                                .iter()
                                .map(|o| o.to_string())
                                .collect::<Vec<_>>()
                                .join("; ");
                        }
                    }
                    let Err((_, f0)) = r else { continue };
                    if f0.kind == Kind::Inconclusive {
                        continue;
                    }
                    let Err((_, f)) = judge(prop, &h) else {
                        other.fetch_add(1, Ordering::Relaxed);
                        continue;
                    };
                    if stop.swap(true, Ordering::Relaxed) {
                        break;
                    }
                    let (h, f) = shrink(prop, &h, f.kind);
                    *found.lock().unwrap() = Some(render(prop, &h, &f));
                }
                let mut s = seen.lock().unwrap();
                s.0.extend(mine);
                s.1 = sample;
            });
        }
    });
    let f = found.into_inner().unwrap();
    if let Some(s) = &f {
        std::fs::write(out, s).unwrap();
    }
    let (s, sample) = seen.into_inner().unwrap();
    (n.into_inner(), other.into_inner(), s.len() as u64, sample, f)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| {
                i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            })
            .unwrap_or_default();
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m} at {at}"));
    }));
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    match arg(1).as_str() {
        // search <prop> <seed> <secs> <replay-out>
        "search" => {
            let prop: &'static str = Box::leak(arg(2).into_boxed_str());
            let seed: u64 = arg(3).parse().unwrap_or(1);
            let secs: f64 = arg(4).parse().unwrap_or(10.0);
            let out = arg(5);
            let t0 = Instant::now();
            let direct = direct::run(prop, seed, secs);
            if let Err(what) = &direct.1 {
                let s = format!("# property {prop}\n# {what}\ndirect {prop} {seed}\n");
                std::fs::write(&out, &s).unwrap();
                println!("FOUND {out}\n{s}");
                std::process::exit(1);
            }
            let mut histories = 0;
            let mut other = 0;
            let mut distinct = 0;
            let mut sample = String::new();
            if plan(prop).is_some() {
                let left = secs - t0.elapsed().as_secs_f64();
                let (n, o, d, e, f) = search(prop, seed, left.max(1.0), &out, 8);
                histories = n;
                other = o;
                distinct = d;
                sample = e;
                if let Some(s) = f {
                    println!("FOUND {out}\n{s}");
                    std::process::exit(1);
                }
            }
            println!(
                "{{\"histories\": {histories}, \"direct_cases\": {}, \
                 \"histories_stopped_by_other_failures\": {other}, \
                 \"distinct_nontrivial\": {}, \"sample\": \"{sample}\", \
                 \"seconds\": {:.1}}}",
                direct.0,
                distinct + direct.0,
                t0.elapsed().as_secs_f64()
            );
        },
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).unwrap();
            if let Some(l) = s.lines().find(|l| l.starts_with("direct ")) {
                let t: Vec<&str> = l.split_whitespace().collect();
                let r = direct::run(
                    Box::leak(t[1].to_string().into_boxed_str()),
                    t[2].parse().unwrap(),
                    60.0,
                );
                match r.1 {
                    Ok(()) => println!("no failure"),
                    Err(e) => {
                        println!("FAIL: {e}");
                        std::process::exit(1);
                    },
                }
                return;
            }
            let (prop, h) = parse(&s).expect("bad replay file");
            match judge(&prop, &h) {
                Ok(_) => println!("no failure"),
                Err((i, f)) => {
                    println!("FAIL at op {i}: {:?}: {}", f.kind, f.what);
                    std::process::exit(1);
                },
            }
        },
        _ => std::process::exit(2),
    }
}
