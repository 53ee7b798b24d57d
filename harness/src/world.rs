//! The reference semantics ("oracle") and the world of real replicas that is
//! compared against it.  Everything here only uses cola's public API plus its
//! `#[doc(hidden)]` helpers (`len`, `assert_invariants`, `eq_decoded`).

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;

use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica};

pub type Ch = (u64, usize);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// node, offset, len
    Ins(usize, usize, usize),
    /// node, start, end
    Del(usize, usize, usize),
    /// node, message
    Deliver(usize, usize),
    /// node: drain backlogged insertions, then deletions
    DrainIns(usize),
    DrainDel(usize),
    /// node: fork it
    Fork(usize),
    /// node: encode it and decode it as a new replica
    Reload(usize),
    /// node, offset, right bias?
    MkAnchor(usize, usize, bool),
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match *self {
            Op::Ins(n, o, l) => write!(f, "ins {n} {o} {l}"),
            Op::Del(n, a, b) => write!(f, "del {n} {a} {b}"),
            Op::Deliver(n, m) => write!(f, "deliver {n} {m}"),
            Op::DrainIns(n) => write!(f, "drain_ins {n}"),
            Op::DrainDel(n) => write!(f, "drain_del {n}"),
            Op::Fork(n) => write!(f, "fork {n}"),
            Op::Reload(n) => write!(f, "reload {n}"),
            Op::MkAnchor(n, o, r) => {
                write!(f, "anchor {n} {o} {}", if r { "right" } else { "left" })
            },
        }
    }
}

pub fn parse_op(s: &str) -> Option<Op> {
    let t: Vec<&str> = s.split_whitespace().collect();
    let u = |i: usize| t.get(i).and_then(|x| x.parse::<usize>().ok());
    Some(match *t.first()? {
        "ins" => Op::Ins(u(1)?, u(2)?, u(3)?),
        "del" => Op::Del(u(1)?, u(2)?, u(3)?),
        "deliver" => Op::Deliver(u(1)?, u(2)?),
        "drain_ins" => Op::DrainIns(u(1)?),
        "drain_del" => Op::DrainDel(u(1)?),
        "fork" => Op::Fork(u(1)?),
        "reload" => Op::Reload(u(1)?),
        "anchor" => Op::MkAnchor(u(1)?, u(2)?, *t.get(3)? == "right"),
        _ => return None,
    })
}

/// What failed.  `kind` says which guarantee it is evidence against.
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: Kind,
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    /// Replicas with the same edits differ, or orders are inconsistent.
    Diverge,
    /// The author's own document is not what splicing gives.
    Local,
    /// The offset or the ranges handed back do not describe what happened.
    Offset,
    /// A deletion removed something else than what it covered.
    DelSet,
    /// Buffering, ordering, exactly-once.
    Gate,
    /// Anchor resolves to the wrong place.
    Anchor,
    /// Encode/decode of a whole replica.
    Reload,
    /// Encode/decode of a message.
    Message,
    /// `assert_invariants` panicked.
    Invariant,
    /// Identity of characters (temporal ranges).
    Identity,
    /// Fork.
    Fork,
    /// Not a failure: the oracle gave up on this history.
    Inconclusive,
    /// Panics inside cola on a legal call.
    PanicLocal,
    PanicMerge,
    PanicFork,
    PanicReload,
    PanicAnchor,
}

pub type Mask = u32;

impl Kind {
    pub const fn bit(self) -> Mask {
        1 << self as u32
    }
}

#[derive(Clone)]
pub enum Msg {
    Ins {
        ins: Insertion,
        author: u64,
        start: usize,
        len: usize,
        left: Option<Ch>,
    },
    Del {
        del: Deletion,
        author: u64,
        ts: u64,
        chars: BTreeSet<Ch>,
        /// What its author had already deleted.  A replica that does not
        /// know of those deletions yet may lose these characters early.
        gone: BTreeSet<Ch>,
        need: Vec<(u64, usize)>,
    },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target {
    Start,
    End,
    RightOf(Ch),
    LeftOf(Ch),
}

#[derive(Clone)]
pub struct Node {
    pub id: u64,
    pub replica: Replica,
    pub doc: Vec<Ch>,
    pub ver: BTreeMap<u64, usize>,
    pub delts: BTreeMap<u64, u64>,
    pub pend: BTreeSet<usize>,
    /// All the characters this node has ever shown.
    pub seen: BTreeSet<Ch>,
}

#[derive(Clone, Default)]
pub struct Order {
    idx: HashMap<Ch, usize>,
    reach: Vec<Vec<u64>>,
}

impl Order {
    fn id(&mut self, c: Ch) -> usize {
        let n = self.idx.len();
        let i = *self.idx.entry(c).or_insert(n);
        if i == self.reach.len() {
            self.reach.push(vec![]);
        }
        i
    }
    fn get(&self, a: usize, b: usize) -> bool {
        self.reach[a].get(b / 64).map_or(false, |w| w >> (b % 64) & 1 == 1)
    }
    pub fn before(&self, a: Ch, b: Ch) -> bool {
        match (self.idx.get(&a), self.idx.get(&b)) {
            (Some(&a), Some(&b)) => self.get(a, b),
            _ => false,
        }
    }
    /// Records that a is right before b somewhere; false if b was before a.
    fn edge(&mut self, a: Ch, b: Ch) -> bool {
        let (a, b) = (self.id(a), self.id(b));
        if self.get(a, b) {
            return true;
        }
        if a == b || self.get(b, a) {
            return false;
        }
        let mut add = self.reach[b].clone();
        let w = b / 64;
        if add.len() <= w {
            add.resize(w + 1, 0);
        }
        add[w] |= 1 << (b % 64);
        for i in 0..self.reach.len() {
            if i == a || self.get(i, a) {
                let r = &mut self.reach[i];
                if r.len() < add.len() {
                    r.resize(add.len(), 0);
                }
                for (x, y) in r.iter_mut().zip(&add) {
                    *x |= *y;
                }
            }
        }
        true
    }
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub check_invariants: bool,
    pub check_messages: bool,
    pub check_anchors: bool,
    pub check_order: bool,
    /// Compare the replica's own document with the one its user has.
    pub check_actual: bool,
    /// The kinds of failures that are looked for.
    pub mask: Mask,
    /// Believe whatever the replicas return; only compare the documents that
    /// their users end up with.
    pub lax: bool,
    /// Make the initial replicas by decoding instead of forking.
    pub init_reload: bool,
}

impl Cfg {
    pub fn wants(&self, k: Kind) -> bool {
        self.mask & k.bit() != 0
    }
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            check_invariants: true,
            check_messages: true,
            check_anchors: true,
            check_order: true,
            check_actual: true,
            mask: !0,
            lax: false,
            init_reload: false,
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub nodes: Vec<Node>,
    pub msgs: Vec<Msg>,
    pub order: Order,
    pub states: HashMap<(Vec<(u64, usize)>, Vec<(u64, u64)>), Vec<Ch>>,
    pub anchors: Vec<(Anchor, Target)>,
    pub anchor_at:
        HashMap<(Vec<(u64, usize)>, Vec<(u64, u64)>, usize), Option<usize>>,
    /// The left-biased anchor next to each character.
    pub canon: HashMap<Ch, Anchor>,
    pub next_id: u64,
    pub cfg: Cfg,
}

type R<T> = Result<T, Fail>;

fn fail<T>(kind: Kind, what: String) -> R<T> {
    Err(Fail { kind, what })
}

macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => {
        if !$c { return fail($k, format!($($a)*)); }
    };
}

impl World {
    /// `n` replicas forked from one that starts with `len` characters.
    pub fn new(n: usize, len: usize, cfg: Cfg) -> Self {
        // Ids are deliberately neither dense nor increasing.
        let id = 7;
        let replica = Replica::new(id, len);
        let doc: Vec<Ch> = (0..len).map(|i| (id, i)).collect();
        let node = Node {
            id,
            replica,
            seen: doc.iter().copied().collect(),
            doc,
            ver: [(id, len)].into(),
            delts: Default::default(),
            pend: Default::default(),
        };
        let mut w = World {
            nodes: vec![node],
            msgs: vec![],
            order: Order::default(),
            states: HashMap::new(),
            anchors: vec![],
            anchor_at: HashMap::new(),
            canon: HashMap::new(),
            next_id: 0,
            cfg,
        };
        if cfg.check_actual && w.learn(0, 0, len).is_err() {
            w.cfg.check_actual = false;
        }
        for _ in 1..n {
            let op =
                if cfg.init_reload { Op::Reload(0) } else { Op::Fork(0) };
            w.apply(op).expect("copy of a fresh replica");
        }
        w
    }

    /// Learns the anchors of `len` characters that are new at `off`.
    fn learn(&mut self, n: usize, off: usize, len: usize) -> R<()> {
        let nd = &self.nodes[n];
        if nd.replica.len() != nd.doc.len() {
            return fail(
                Kind::Local,
                format!(
                    "replica {} says its length is {}, its document has {} \
                     characters",
                    nd.id,
                    nd.replica.len(),
                    nd.doc.len()
                ),
            );
        }
        for i in off..off + len {
            let a = nd.replica.create_anchor(i + 1, AnchorBias::Left);
            self.canon.insert(nd.doc[i], a);
        }
        Ok(())
    }

    /// The characters that the replica of node `n` shows, according to the
    /// replica itself.
    fn actual(&self, n: usize) -> Option<Vec<Ch>> {
        let nd = &self.nodes[n];
        let mut j = 0;
        let mut out = vec![];
        for o in 1..=nd.replica.len() {
            let a = nd.replica.create_anchor(o, AnchorBias::Left);
            let k = (j..nd.doc.len())
                .find(|&k| self.canon.get(&nd.doc[k]) == Some(&a));
            if let Some(k) = k {
                out.push(nd.doc[k]);
                j = k + 1;
                continue;
            }
            out.push(*self.canon.iter().find(|x| *x.1 == a)?.0);
        }
        Some(out)
    }

    /// Does the user of node `n` have the document its replica has?
    fn check_actual(&self, n: usize, kind: Kind, when: &str) -> R<()> {
        if !self.cfg.check_actual || !self.cfg.wants(kind) {
            return Ok(());
        }
        let nd = &self.nodes[n];
        let got = self.actual(n);
        ensure!(
            got.as_ref() == Some(&nd.doc),
            kind,
            "after {when}, replica {} has {} characters, {:?}, instead of {:?}",
            nd.id,
            nd.replica.len(),
            got,
            nd.doc
        );
        Ok(())
    }

    fn fresh_id(&mut self) -> u64 {
        const IDS: [u64; 12] =
            [3, u64::MAX, 11, 1, 300, 70_000, 5, 1 << 40, 2, 9, 4, 6];
        let k = self.next_id as usize;
        self.next_id += 1;
        IDS.get(k).copied().unwrap_or(1000 + k as u64)
    }

    fn msg_author(&self, m: usize) -> u64 {
        match &self.msgs[m] {
            Msg::Ins { author, .. } | Msg::Del { author, .. } => *author,
        }
    }

    fn merged(&self, n: usize, m: usize) -> bool {
        let nd = &self.nodes[n];
        match &self.msgs[m] {
            Msg::Ins { author, start, .. } => {
                nd.ver.get(author).copied().unwrap_or(0) > *start
            },
            Msg::Del { author, ts, .. } => {
                nd.delts.get(author).copied().unwrap_or(0) >= *ts
            },
        }
    }

    fn ready(&self, n: usize, m: usize) -> bool {
        let nd = &self.nodes[n];
        let ver = |a: u64| nd.ver.get(&a).copied().unwrap_or(0);
        match &self.msgs[m] {
            Msg::Ins { author, start, left, .. } => {
                ver(*author) == *start
                    && left.map_or(true, |c| ver(c.0) > c.1)
            },
            Msg::Del { author, ts, need, .. } => {
                nd.delts.get(author).copied().unwrap_or(0) + 1 == *ts
                    && need.iter().all(|&(id, v)| ver(id) >= v)
            },
        }
    }

    fn apply_ins(&mut self, n: usize, m: usize, off: usize) -> R<()> {
        let Msg::Ins { author, start, len, .. } = self.msgs[m] else {
            unreachable!()
        };
        let nd = &mut self.nodes[n];
        ensure!(
            off <= nd.doc.len(),
            Kind::Offset,
            "replica {} was told to insert at {off} but its document has {} \
             characters",
            nd.id,
            nd.doc.len()
        );
        let chars: Vec<Ch> = (start..start + len).map(|i| (author, i)).collect();
        nd.seen.extend(chars.iter().copied());
        nd.doc.splice(off..off, chars);
        *nd.ver.entry(author).or_insert(0) += len;
        nd.pend.remove(&m);
        Ok(())
    }

    /// Checks the returned ranges and gives the characters they cover.
    fn covered(
        &self,
        n: usize,
        ranges: &[std::ops::Range<usize>],
    ) -> R<BTreeSet<Ch>> {
        let nd = &self.nodes[n];
        let mut prev: Option<usize> = None;
        let mut out = BTreeSet::new();
        for r in ranges {
            ensure!(
                r.start < r.end && r.end <= nd.doc.len(),
                Kind::Offset,
                "replica {}: range {r:?} is empty or out of a document of {} \
                 characters",
                nd.id,
                nd.doc.len()
            );
            ensure!(
                prev.map_or(true, |p| p < r.start),
                Kind::Offset,
                "replica {}: ranges {ranges:?} are not ascending and \
                 separate",
                nd.id
            );
            prev = Some(r.end);
            out.extend(nd.doc[r.clone()].iter().copied());
        }
        Ok(out)
    }

    /// What merging deletion `m` must and may remove at node `n`.
    fn expected_removed(&self, n: usize, m: usize) -> (BTreeSet<Ch>, BTreeSet<Ch>) {
        let Msg::Del { chars, gone, .. } = &self.msgs[m] else {
            unreachable!()
        };
        let doc = &self.nodes[n].doc;
        (
            doc.iter().filter(|c| chars.contains(c)).copied().collect(),
            doc.iter().filter(|c| gone.contains(c)).copied().collect(),
        )
    }

    fn explains(&self, n: usize, m: usize, got: &BTreeSet<Ch>) -> bool {
        let (must, may) = self.expected_removed(n, m);
        must.is_subset(got)
            && got.iter().all(|c| must.contains(c) || may.contains(c))
    }

    fn apply_del(&mut self, n: usize, m: usize, got: &BTreeSet<Ch>) {
        let (author, ts) = match &self.msgs[m] {
            Msg::Del { author, ts, .. } => (*author, *ts),
            _ => unreachable!(),
        };
        let nd = &mut self.nodes[n];
        nd.doc.retain(|c| !got.contains(c));
        nd.delts.insert(author, ts);
        nd.pend.remove(&m);
    }

    /// Messages of node `n`'s model-backlog that can be merged right now.
    fn ready_pending(&self, n: usize) -> Vec<usize> {
        self.nodes[n]
            .pend
            .iter()
            .copied()
            .filter(|&m| self.ready(n, m))
            .collect()
    }

    pub fn apply(&mut self, op: Op) -> R<()> {
        let n = match op {
            Op::Ins(n, off, len) => {
                self.op_ins(n, off, len)?;
                n
            },
            Op::Del(n, a, b) => {
                self.op_del(n, a, b)?;
                n
            },
            Op::Deliver(n, m) => {
                self.op_deliver(n, m)?;
                n
            },
            Op::DrainIns(n) => {
                self.op_drain_ins(n)?;
                n
            },
            Op::DrainDel(n) => {
                self.op_drain_del(n)?;
                n
            },
            Op::Fork(n) => {
                let id = self.fresh_id();
                let replica = self.nodes[n].replica.fork(id);
                ensure!(
                    replica.id() == id,
                    Kind::Fork,
                    "fork({id}) has id {}",
                    replica.id()
                );
                ensure!(
                    replica.len() == self.nodes[n].doc.len(),
                    Kind::Fork,
                    "fork of a document of {} characters has {}",
                    self.nodes[n].doc.len(),
                    replica.len()
                );
                self.push_node(n, id, replica);
                self.nodes.len() - 1
            },
            Op::Reload(n) => {
                let id = self.fresh_id();
                let enc = self.nodes[n].replica.encode();
                let bytes = enc.as_bytes().to_vec();
                let enc = EncodedReplica::from_bytes(&bytes);
                let replica = match Replica::decode(id, &enc) {
                    Ok(r) => r,
                    Err(e) => {
                        return fail(
                            Kind::Reload,
                            format!("decode(encode()) failed: {e}"),
                        )
                    },
                };
                ensure!(
                    replica.id() == id,
                    Kind::Reload,
                    "decode({id}, ..) has id {}",
                    replica.id()
                );
                ensure!(
                    replica.len() == self.nodes[n].doc.len(),
                    Kind::Reload,
                    "decoded replica has {} characters, the encoded one {}",
                    replica.len(),
                    self.nodes[n].doc.len()
                );
                ensure!(
                    self.nodes[n].replica.eq_decoded(&replica),
                    Kind::Reload,
                    "decoded replica differs from the encoded one"
                );
                self.push_node(n, id, replica);
                self.nodes.len() - 1
            },
            Op::MkAnchor(n, off, right) => {
                self.op_anchor(n, off, right)?;
                n
            },
        };
        self.after(
            n,
            match op {
                Op::Deliver(..) | Op::DrainIns(_) | Op::DrainDel(_) => {
                    Kind::Offset
                },
                _ => Kind::Local,
            },
        )
    }

    fn push_node(&mut self, from: usize, id: u64, replica: Replica) {
        let mut nd = self.nodes[from].clone();
        nd.id = id;
        nd.replica = replica;
        self.nodes.push(nd);
    }

    fn op_ins(&mut self, n: usize, off: usize, len: usize) -> R<()> {
        let nd = &mut self.nodes[n];
        let id = nd.id;
        let ins = nd.replica.inserted(off, len);
        if len == 0 {
            ensure!(
                nd.replica.len() == nd.doc.len(),
                Kind::Local,
                "empty insertion changed the document"
            );
            self.msgs.push(Msg::Ins {
                ins,
                author: 0,
                start: 0,
                len: 0,
                left: None,
            });
            return Ok(());
        }
        let start = nd.ver.get(&id).copied().unwrap_or(0);
        ensure!(
            ins.text().temporal_range() == (start..start + len)
                && ins.text().inserted_by() == id
                && ins.inserted_by() == id,
            Kind::Identity,
            "replica {id} inserted {len} characters after {start} of its own \
             and identified them as {:?} of {}",
            ins.text().temporal_range(),
            ins.text().inserted_by()
        );
        let left = if off == 0 { None } else { Some(nd.doc[off - 1]) };
        let chars: Vec<Ch> = (start..start + len).map(|i| (id, i)).collect();
        nd.seen.extend(chars.iter().copied());
        nd.doc.splice(off..off, chars);
        nd.ver.insert(id, start + len);
        self.msgs.push(Msg::Ins { ins, author: id, start, len, left });
        if self.cfg.check_actual {
            self.learn(n, off, len)?;
            self.check_actual(n, Kind::Local, "a local insertion")?;
        }
        self.check_last_msg()
    }

    fn op_del(&mut self, n: usize, a: usize, b: usize) -> R<()> {
        let nd = &mut self.nodes[n];
        let id = nd.id;
        let del = nd.replica.deleted(a..b);
        if a == b {
            ensure!(
                nd.replica.len() == nd.doc.len(),
                Kind::Local,
                "empty deletion changed the document"
            );
            self.msgs.push(Msg::Del {
                del,
                author: 0,
                ts: 0,
                chars: Default::default(),
                gone: Default::default(),
                need: vec![],
            });
            return Ok(());
        }
        ensure!(
            del.deleted_by() == id,
            Kind::Identity,
            "deletion by {id} says {}",
            del.deleted_by()
        );
        let chars: BTreeSet<Ch> = nd.doc.drain(a..b).collect();
        let gone = nd
            .seen
            .iter()
            .filter(|c| !chars.contains(c) && !nd.doc.contains(c))
            .copied()
            .collect();
        let ts = nd.delts.get(&id).copied().unwrap_or(0) + 1;
        nd.delts.insert(id, ts);
        let mut ids: BTreeSet<u64> = chars.iter().map(|c| c.0).collect();
        ids.insert(id);
        let need = ids
            .into_iter()
            .map(|i| (i, nd.ver.get(&i).copied().unwrap_or(0)))
            .collect();
        self.msgs.push(Msg::Del { del, author: id, ts, chars, gone, need });
        self.check_actual(n, Kind::Local, "a local deletion")?;
        self.check_last_msg()
    }

    fn op_deliver(&mut self, n: usize, m: usize) -> R<()> {
        let id = self.nodes[n].id;
        let noop = self.msg_author(m) == 0;
        let skip = noop || self.merged(n, m);
        let ready = !skip && self.ready(n, m);
        let why = if skip {
            "that it already has (or that is empty)"
        } else {
            "whose context it does not have"
        };
        match self.msgs[m].clone() {
            Msg::Ins { ins, .. } => {
                let got = self.nodes[n].replica.integrate_insertion(&ins);
                if self.cfg.lax {
                    return match got {
                        Some(off) => self.apply_ins(n, m, off),
                        None => {
                            if !skip {
                                self.nodes[n].pend.insert(m);
                            }
                            Ok(())
                        },
                    };
                }
                match (got, ready) {
                    (Some(off), true) => {
                        self.apply_ins(n, m, off)?;
                        self.check_actual(
                            n,
                            Kind::Offset,
                            "merging an insertion",
                        )?;
                    },
                    (None, false) => {
                        if !skip {
                            self.nodes[n].pend.insert(m);
                        }
                        self.check_actual(
                            n,
                            Kind::Gate,
                            "receiving an insertion that is not merged",
                        )?;
                    },
                    (Some(o), false) => {
                        return fail(
                            Kind::Gate,
                            format!(
                                "replica {id} merged at {o} an insertion {why}"
                            ),
                        )
                    },
                    (None, true) => {
                        return fail(
                            Kind::Gate,
                            format!(
                                "replica {id} did not merge an insertion \
                                 whose whole context it has"
                            ),
                        )
                    },
                }
            },
            Msg::Del { del, .. } => {
                let ranges = self.nodes[n].replica.integrate_deletion(&del);
                if self.cfg.lax {
                    let got = self.covered(n, &ranges)?;
                    if ready || !got.is_empty() {
                        self.apply_del(n, m, &got);
                    } else if !skip {
                        self.nodes[n].pend.insert(m);
                    }
                    return Ok(());
                }
                if !ready {
                    ensure!(
                        ranges.is_empty(),
                        Kind::Gate,
                        "replica {id} returned {ranges:?} for a deletion {why}"
                    );
                    if !skip {
                        self.nodes[n].pend.insert(m);
                    }
                    return self.check_actual(
                        n,
                        Kind::Gate,
                        "receiving a deletion that is not merged",
                    );
                }
                let (want, may) = self.expected_removed(n, m);
                let now = self.nodes[n].doc.len();
                ensure!(
                    !(ranges.is_empty()
                        && !want.is_empty()
                        && self.nodes[n].replica.len() == now),
                    Kind::Gate,
                    "replica {id} did not merge a deletion whose whole \
                     context it has"
                );
                if self.cfg.check_actual && self.cfg.wants(Kind::DelSet) {
                    let doc = &self.nodes[n].doc;
                    let Some(after) = self.actual(n) else {
                        return fail(
                            Kind::DelSet,
                            format!(
                                "after merging a deletion replica {id} has \
                                 characters that it never had"
                            ),
                        );
                    };
                    let removed: BTreeSet<Ch> = doc
                        .iter()
                        .filter(|c| !after.contains(c))
                        .copied()
                        .collect();
                    ensure!(
                        self.explains(n, m, &removed),
                        Kind::DelSet,
                        "merging a deletion of {want:?} (with {may:?} \
                         already gone for its author), replica {id} removed \
                         {removed:?}"
                    );
                }
                let got = self.covered(n, &ranges)?;
                self.apply_del(n, m, &got);
                self.check_actual(n, Kind::Offset, "merging a deletion")?;
            },
        }
        Ok(())
    }

    fn op_drain_ins(&mut self, n: usize) -> R<()> {
        let id = self.nodes[n].id;
        let must: Vec<usize> = self
            .ready_pending(n)
            .into_iter()
            .filter(|&m| matches!(self.msgs[m], Msg::Ins { .. }))
            .collect();
        let got: Vec<_> =
            self.nodes[n].replica.backlogged_insertions().collect();
        for (text, off) in got {
            let same = |m: usize| match &self.msgs[m] {
                Msg::Ins { author, start, len, .. } => {
                    *author == text.inserted_by()
                        && (*start..*start + *len) == text.temporal_range()
                },
                _ => false,
            };
            let m = self.nodes[n].pend.iter().copied().find(|&m| same(m));
            let Some(m) = m else {
                return fail(
                    if (0..self.msgs.len()).any(same) {
                        Kind::Gate
                    } else {
                        Kind::Identity
                    },
                    format!(
                        "replica {id} yielded {text:?} from its backlog, \
                         which is not there"
                    ),
                );
            };
            if !self.cfg.lax {
                ensure!(
                    self.ready(n, m),
                    Kind::Gate,
                    "replica {id} yielded {text:?} from its backlog before \
                     its context was there"
                );
            }
            self.apply_ins(n, m, off)?;
        }
        if self.cfg.lax {
            return Ok(());
        }
        for m in must {
            ensure!(
                !self.nodes[n].pend.contains(&m),
                Kind::Gate,
                "replica {id} did not yield a backlogged insertion that was \
                 ready"
            );
        }
        self.check_actual(n, Kind::Offset, "draining the backlog")
    }

    fn op_drain_del(&mut self, n: usize) -> R<()> {
        let id = self.nodes[n].id;
        let got: Vec<_> =
            self.nodes[n].replica.backlogged_deletions().collect();
        let mut covs = vec![];
        let saved = self.nodes[n].doc.clone();
        for ranges in &got {
            let cov = self.covered(n, ranges)?;
            ensure!(
                self.cfg.lax || !cov.is_empty(),
                Kind::Gate,
                "replica {id} yielded an empty deletion from its backlog"
            );
            self.nodes[n].doc.retain(|c| !cov.contains(c));
            covs.push(cov);
        }
        if self.cfg.lax {
            while let Some(&m) = self
                .ready_pending(n)
                .iter()
                .find(|&&m| matches!(self.msgs[m], Msg::Del { .. }))
            {
                self.apply_del(n, m, &BTreeSet::new());
            }
            return Ok(());
        }
        self.check_actual(n, Kind::Offset, "draining the backlog")?;
        if !(self.cfg.wants(Kind::Gate) || self.cfg.wants(Kind::DelSet)) {
            // Nobody looks at which deletion removed what.
            let all: BTreeSet<Ch> = covs.into_iter().flatten().collect();
            while let Some(&m) = self
                .ready_pending(n)
                .iter()
                .find(|&&m| matches!(self.msgs[m], Msg::Del { .. }))
            {
                self.apply_del(n, m, &all);
            }
            return Ok(());
        }
        self.nodes[n].doc = saved;
        let mut budget = 20_000;
        let ok = self.assign_dels(n, &covs, &mut budget);
        if budget == 0 {
            // Too many ways to explain it: this history decides nothing.
            return fail(Kind::Inconclusive, String::new());
        }
        match ok {
            Some(true) => Ok(()),
            Some(false) => fail(
                Kind::Gate,
                format!(
                    "replica {id} did not yield a backlogged deletion that \
                     was ready"
                ),
            ),
            None => fail(
                Kind::DelSet,
                format!(
                    "replica {id}: the backlogged ranges {got:?} cover \
                     {covs:?}, which is not what the ready deletions cover"
                ),
            ),
        }
    }

    /// Finds which ready deletions explain what was removed, in order.
    /// `None`: none do; `Some(false)`: some ready one was left behind.
    fn assign_dels(
        &mut self,
        n: usize,
        covs: &[BTreeSet<Ch>],
        budget: &mut u32,
    ) -> Option<bool> {
        let ready: Vec<usize> = self
            .ready_pending(n)
            .into_iter()
            .filter(|&m| matches!(self.msgs[m], Msg::Del { .. }))
            .collect();
        let nothing = BTreeSet::new();
        if *budget == 0 {
            return Some(true);
        }
        *budget -= 1;
        let mut left_behind = false;
        let mut moves = vec![];
        if let Some(cov) = covs.first() {
            for &m in &ready {
                if self.explains(n, m, cov) {
                    moves.push((m, cov, &covs[1..]));
                }
            }
        }
        for &m in &ready {
            if self.expected_removed(n, m).0.is_empty() {
                moves.push((m, &nothing, covs));
            }
        }
        if ready.is_empty() && covs.is_empty() {
            return Some(true);
        }
        if covs.is_empty() && moves.is_empty() {
            return Some(false);
        }
        for (m, cov, rest) in moves {
            let nd = self.nodes[n].clone();
            self.apply_del(n, m, cov);
            match self.assign_dels(n, rest, budget) {
                Some(true) => return Some(true),
                Some(false) => left_behind = true,
                None => {},
            }
            self.nodes[n] = nd;
        }
        if left_behind { Some(false) } else { None }
    }

    fn op_anchor(&mut self, n: usize, off: usize, right: bool) -> R<()> {
        let nd = &self.nodes[n];
        let bias = if right { AnchorBias::Right } else { AnchorBias::Left };
        let a = nd.replica.create_anchor(off, bias);
        let t = match (off, right) {
            (0, false) => Target::Start,
            (o, true) if o == nd.doc.len() => Target::End,
            (o, true) => Target::LeftOf(nd.doc[o]),
            (o, false) => Target::RightOf(nd.doc[o - 1]),
        };
        if self.cfg.check_messages {
            let b: Anchor = round_trip(&a, "anchor")?;
            ensure!(
                a == b,
                Kind::Message,
                "anchor {a:?} became {b:?} after encoding"
            );
        }
        self.anchors.push((a, t));
        Ok(())
    }

    fn check_last_msg(&mut self) -> R<()> {
        if !self.cfg.check_messages {
            return Ok(());
        }
        match self.msgs.last_mut().unwrap() {
            Msg::Ins { ins, .. } => {
                let b: Insertion = round_trip(ins, "insertion")?;
                ensure!(
                    *ins == b,
                    Kind::Message,
                    "insertion {ins:?} became {b:?} after encoding"
                );
                *ins = b;
            },
            Msg::Del { del, .. } => {
                let b: Deletion = round_trip(del, "deletion")?;
                ensure!(
                    *del == b,
                    Kind::Message,
                    "deletion {del:?} became {b:?} after encoding"
                );
                *del = b;
            },
        }
        Ok(())
    }

    fn key(&self, n: usize) -> (Vec<(u64, usize)>, Vec<(u64, u64)>) {
        let nd = &self.nodes[n];
        (
            nd.ver.iter().filter(|x| *x.1 > 0).map(|(a, b)| (*a, *b)).collect(),
            nd.delts
                .iter()
                .filter(|x| *x.1 > 0)
                .map(|(a, b)| (*a, *b))
                .collect(),
        )
    }

    fn after(&mut self, n: usize, kind: Kind) -> R<()> {
        let id = self.nodes[n].id;
        let (rl, dl) = (self.nodes[n].replica.len(), self.nodes[n].doc.len());
        if self.cfg.lax {
            return Ok(());
        }
        ensure!(
            rl == dl,
            kind,
            "replica {id} says its length is {rl}, its document has {dl} \
             characters"
        );
        if self.cfg.check_invariants {
            let r = &self.nodes[n].replica;
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(
                || r.assert_invariants(),
            ));
            ensure!(
                ok.is_ok(),
                Kind::Invariant,
                "replica {id}: assert_invariants: {}",
                crate::last_panic()
            );
        }
        let key = self.key(n);
        if let Some(d) = self.states.get(&key) {
            ensure!(
                *d == self.nodes[n].doc,
                Kind::Diverge,
                "replica {id} shows {:?}; another replica with the same \
                 edits showed {d:?}",
                self.nodes[n].doc
            );
        } else {
            self.states.insert(key.clone(), self.nodes[n].doc.clone());
            if self.cfg.check_order {
                let d = &self.nodes[n].doc;
                for w in d.windows(2) {
                    ensure!(
                        self.order.edge(w[0], w[1]),
                        Kind::Diverge,
                        "replica {id} shows {:?} before {:?}, the other way \
                         around elsewhere",
                        w[0],
                        w[1]
                    );
                }
            }
        }
        if self.cfg.check_anchors {
            for i in 0..self.anchors.len() {
                self.check_anchor(n, i, &key)?;
            }
        }
        Ok(())
    }

    fn check_anchor(
        &mut self,
        n: usize,
        i: usize,
        key: &(Vec<(u64, usize)>, Vec<(u64, u64)>),
    ) -> R<()> {
        let (a, t) = self.anchors[i];
        let nd = &self.nodes[n];
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(
            || nd.replica.resolve_anchor(a),
        )) {
            Ok(g) => g,
            Err(_) => {
                return fail(
                    Kind::Anchor,
                    format!(
                        "replica {}: resolving an anchor to {t:?} panicked: \
                         {}",
                        nd.id,
                        crate::last_panic()
                    ),
                )
            },
        };
        let len = nd.doc.len();
        let (lo, hi) = match t {
            Target::Start => (0, 0),
            Target::End => (len, len),
            Target::LeftOf(c) | Target::RightOf(c) => {
                if nd.ver.get(&c.0).copied().unwrap_or(0) <= c.1 {
                    ensure!(
                        got.is_none(),
                        Kind::Anchor,
                        "replica {} resolved an anchor to {t:?}, which it \
                         does not have, to {got:?}",
                        nd.id
                    );
                    return Ok(());
                }
                if let Some(p) = nd.doc.iter().position(|x| *x == c) {
                    let p = p + matches!(t, Target::RightOf(_)) as usize;
                    (p, p)
                } else {
                    let lo = nd
                        .doc
                        .iter()
                        .rposition(|x| self.order.before(*x, c))
                        .map_or(0, |p| p + 1);
                    let hi = nd
                        .doc
                        .iter()
                        .position(|x| self.order.before(c, *x))
                        .unwrap_or(len);
                    (lo, hi)
                }
            },
        };
        ensure!(
            got.map_or(false, |g| lo <= g && g <= hi),
            Kind::Anchor,
            "replica {} resolved an anchor to {t:?} to {got:?} instead of \
             {lo}..={hi}",
            nd.id
        );
        let k = (key.0.clone(), key.1.clone(), i);
        let prev = *self.anchor_at.entry(k).or_insert(got);
        ensure!(
            prev == got,
            Kind::Anchor,
            "replica {} resolved an anchor to {t:?} to {got:?}, another \
             replica with the same edits to {prev:?}",
            nd.id
        );
        Ok(())
    }

    /// Delivers everything to everybody (in the order given by `pick`) and
    /// drains until quiet; then all replicas must agree.
    pub fn flush(&mut self, mut pick: impl FnMut(usize) -> usize) -> R<()> {
        for n in 0..self.nodes.len() {
            let mut todo: Vec<usize> = (0..self.msgs.len())
                .filter(|&m| self.msg_author(m) != 0 && !self.merged(n, m))
                .collect();
            while !todo.is_empty() {
                let k = pick(todo.len());
                let m = todo.swap_remove(k);
                self.apply(Op::Deliver(n, m))?;
            }
            loop {
                let before = self.nodes[n].pend.len();
                self.apply(Op::DrainIns(n))?;
                self.apply(Op::DrainDel(n))?;
                if self.nodes[n].pend.len() == before {
                    break;
                }
            }
            ensure!(
                self.nodes[n].pend.is_empty(),
                Kind::Gate,
                "replica {} has every edit but {} are still in its backlog",
                self.nodes[n].id,
                self.nodes[n].pend.len()
            );
        }
        for n in 1..self.nodes.len() {
            ensure!(
                self.nodes[n].doc == self.nodes[0].doc,
                Kind::Diverge,
                "after every edit was delivered replica {} shows {:?} and \
                 replica {} shows {:?}",
                self.nodes[0].id,
                self.nodes[0].doc,
                self.nodes[n].id,
                self.nodes[n].doc
            );
        }
        Ok(())
    }
}

pub fn round_trip<T>(v: &T, what: &str) -> R<T>
where
    T: serde::Serialize + serde::de::DeserializeOwned,
{
    let cfg = bincode::config::standard();
    let bytes = match bincode::serde::encode_to_vec(v, cfg) {
        Ok(b) => b,
        Err(e) => {
            return fail(Kind::Message, format!("encoding an {what}: {e}"))
        },
    };
    match bincode::serde::decode_from_slice::<T, _>(&bytes, cfg) {
        Ok((v, _)) => Ok(v),
        Err(e) => fail(Kind::Message, format!("decoding an {what}: {e}")),
    }
}

impl World {
    /// Has node `n` neither merged nor buffered message `m`?
    pub fn is_new(&self, n: usize, m: usize) -> bool {
        self.msg_author(m) != 0
            && !self.merged(n, m)
            && !self.nodes[n].pend.contains(&m)
    }
}
