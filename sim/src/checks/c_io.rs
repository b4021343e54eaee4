//! Replicas, and checkpoints through a failing disk.

use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::hier::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use ::portgraph::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{self, ErrorKind, Read, Write};

// ------------------------------------------------------------- the disk

/// What a stream does wrong.
#[derive(Clone, Debug)]
pub struct Faults {
    /// Fails at this byte (disk full, read error).
    pub fail_at: Option<usize>,
    pub kind: FailKind,
    /// Percentage of calls that are interrupted.
    pub interrupt: usize,
    /// Largest chunk accepted or delivered in a call.
    pub chunk: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FailKind {
    /// ENOSPC or EIO.
    Os(i32),
    /// `Ok(0)`.
    Zero,
    /// The writer claims success, but the bytes never reach the disk.
    Lost,
}

pub struct Disk<'c> {
    ctx: &'c mut Ctx,
    f: Faults,
    pub data: Vec<u8>,
    at: usize,
    lost: bool,
}
impl<'c> Disk<'c> {
    pub fn new(ctx: &'c mut Ctx, f: Faults, data: Vec<u8>) -> Self {
        Disk { ctx, f, data, at: 0, lost: false }
    }
    fn interrupted(&mut self) -> bool {
        let y = self.f.interrupt > 0 && self.ctx.chance(self.f.interrupt);
        if y {
            self.ctx.fault("interrupted call");
        }
        y
    }
}
impl Write for Disk<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupted() {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut len = buf.len().min(self.f.chunk);
        if let Some(at) = self.f.fail_at {
            let left = at.saturating_sub(self.data.len());
            if left == 0 {
                return match self.f.kind {
                    FailKind::Os(e) => {
                        self.ctx.fault("write error");
                        Err(io::Error::from_raw_os_error(e))
                    }
                    FailKind::Zero => {
                        self.ctx.fault("write accepts nothing");
                        Ok(0)
                    }
                    FailKind::Lost => {
                        self.lost = true;
                        self.ctx.fault("lost write");
                        Ok(buf.len())
                    }
                };
            }
            len = len.min(left);
        }
        if len < buf.len() {
            self.ctx.fault("short write");
        }
        self.data.extend_from_slice(&buf[..len]);
        Ok(len)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Disk<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupted() {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut len = buf.len().min(self.f.chunk).min(self.data.len() - self.at);
        if let Some(at) = self.f.fail_at {
            let left = at.saturating_sub(self.at);
            if left == 0 {
                return match self.f.kind {
                    FailKind::Os(e) => {
                        self.ctx.fault("read error");
                        Err(io::Error::from_raw_os_error(e))
                    }
                    _ => {
                        self.ctx.fault("truncated stream");
                        Ok(0)
                    }
                };
            }
            len = len.min(left);
        }
        if len < buf.len() && len < self.data.len() - self.at {
            self.ctx.fault("short read");
        }
        buf[..len].copy_from_slice(&self.data[self.at..self.at + len]);
        self.at += len;
        Ok(len)
    }
}

fn save<T: serde::Serialize>(c: Codec, x: &T, mut d: impl Write) -> Result<(), String> {
    match c {
        Codec::Json => serde_json::to_writer(&mut d, x).map_err(|e| e.to_string()),
        Codec::MsgPack => rmp_serde::encode::write(&mut d, x).map_err(|e| e.to_string()),
        Codec::MsgPackNamed => rmp_serde::encode::write_named(&mut d, x).map_err(|e| e.to_string()),
    }
}
fn load<T: serde::de::DeserializeOwned>(c: Codec, d: impl Read) -> Result<T, String> {
    match c {
        Codec::Json => serde_json::from_reader(d).map_err(|e| e.to_string()),
        _ => rmp_serde::decode::from_read(d).map_err(|e| e.to_string()),
    }
}

fn gentle(ctx: &mut Ctx) -> Faults {
    Faults {
        fail_at: None,
        kind: FailKind::Zero,
        interrupt: *ctx.pick(&[0, 10, 50]).unwrap(),
        chunk: *ctx.pick(&[usize::MAX, 1, 3, 16]).unwrap(),
    }
}

/// Saves and loads `x` through a misbehaving disk. Returns the restored value.
fn through_disk<T>(ctx: &mut Ctx, x: &T, name: &str, same: &dyn Fn(&T, &T) -> bool) -> T
where
    T: serde::Serialize + serde::de::DeserializeOwned + Clone,
{
    let c = *ctx.pick(&CODECS).unwrap();
    let before = x.clone();
    ctx.op(&format!("save and load {name} as {c:?}"));
    // Delays and interruptions only: the value must come back.
    let f = gentle(ctx);
    let mut d = Disk::new(ctx, f, vec![]);
    if let Err(e) = save(c, x, &mut d) {
        fail!("save", "saving {name} as {c:?} failed without a fault: {e}");
    }
    let bytes = std::mem::take(&mut d.data);
    check!(bytes == encode(c, x), "save", "{name}: short and interrupted writes changed the {c:?} checkpoint");
    let f = gentle(ctx);
    let back: T = match load(c, Disk::new(ctx, f, bytes.clone())) {
        Ok(x) => x,
        Err(e) => fail!("load", "loading {name} from {c:?} failed without a fault: {e}"),
    };
    check!(same(&back, x), "restore", "{name}: the value restored from {c:?} differs from the original");
    // Faults at some byte.
    for _ in 0..3 {
        let at = match ctx.draw(4) {
            0 => bytes.len() - 1 - ctx.draw(bytes.len().min(4)),
            _ => ctx.draw(bytes.len()),
        };
        let mut f = gentle(ctx);
        f.fail_at = Some(at);
        f.kind = *ctx.pick(&[FailKind::Os(28), FailKind::Os(5), FailKind::Zero, FailKind::Lost]).unwrap();
        let kind = f.kind;
        let mut d = Disk::new(ctx, f.clone(), vec![]);
        let r = save(c, x, &mut d);
        let (lost, torn) = (d.lost, std::mem::take(&mut d.data));
        check!(r.is_err() || lost, "save", "{name}: saving as {c:?} reported success although the disk failed at byte {at} ({kind:?})");
        check!(same(x, &before), "original", "{name}: a failed save changed the original");
        check!(torn.len() < bytes.len(), "save", "model: {at}");
        // Restart from the torn checkpoint.
        let gentle_f = gentle(ctx);
        let r: Result<T, String> = load(c, Disk::new(ctx, gentle_f, torn.clone()));
        ctx.fault("restart from a torn checkpoint");
        check!(r.is_err(), "torn", "{name}: a {c:?} checkpoint cut at byte {} of {} was loaded as a value", torn.len(), bytes.len());
        // The disk fails while the complete checkpoint is read.
        if f.kind == FailKind::Lost {
            f.kind = FailKind::Zero;
        }
        let r: Result<T, String> = load(c, Disk::new(ctx, f, bytes.clone()));
        check!(r.is_err(), "load", "{name}: loading from {c:?} reported success although the disk failed at byte {at} ({kind:?})");
    }
    back
}

pub const P08: CheckDef = CheckDef {
    id: "P08",
    f: p08,
    quick_runs: 40_000,
    thorough_runs: 800_000,
    about: "structures reached by random histories are written to and read from a simulated disk that splits and interrupts calls, fills up, fails or loses data at a chosen byte, and restarts happen from complete and torn checkpoints; restored structures are compared with the model and take part in the rest of the history",
    real: "the serde implementations of PortGraph, MultiPortGraph, Hierarchy, Weights, UnmanagedDenseMap and the index types, serde_json and rmp-serde streams",
    stub: "the disk (simulated Read and Write)",
    assumes: &["the codecs serde_json and rmp-serde are correct", "bytes that reach the disk are not altered; only truncation, errors, interruption and splitting are simulated"],
};

fn p08(ctx: &mut Ctx) {
    match ctx.draw(8) {
        0 | 1 => io_graph::<PortGraph>(ctx),
        2 | 3 | 4 => io_graph::<MultiPortGraph>(ctx),
        5 => io_hierarchy(ctx),
        6 => io_weights(ctx),
        _ => io_small(ctx),
    }
}
fn io_graph<G: Gr>(ctx: &mut Ctx) {
    let mut mix = Mix::draw(ctx, 9);
    mix.w[15] = 0;
    mix.w[16] = 0;
    ctx.max_steps = ctx.range(1, 40);
    let mut w = World::<G>::new(ctx, mix);
    let often = *ctx.pick(&[10, 30]).unwrap();
    while ctx.next_step() {
        w.step(ctx);
        if ctx.chance(often) {
            w.g = through_disk(ctx, &w.g, G::NAME, &|a, b| a == b);
            w.last = "restart from the simulated disk".into();
            w.check();
        }
    }
    w.g = through_disk(ctx, &w.g, G::NAME, &|a, b| a == b);
    w.check();
}
fn io_hierarchy(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(1, 60);
    let upto = ctx.range(2, 12);
    let mut w = HWorld::new(ctx, upto);
    while ctx.next_step() {
        w.step(ctx);
        if ctx.chance(15) {
            w.h = through_disk(ctx, &w.h, "Hierarchy", &|a, b| a == b);
            w.last = "restart from the simulated disk".into();
            w.check();
        }
    }
}
fn io_weights(ctx: &mut Ctx) {
    let mut w: Weights<u64, String> = Weights::new();
    let mut m: UnmanagedDenseMap<PortIndex, Option<i32>> = UnmanagedDenseMap::with_default(Some(-4));
    let mut model: BTreeMap<usize, (u64, String, Option<i32>)> = BTreeMap::new();
    ctx.max_steps = ctx.range(1, 20);
    while ctx.next_step() {
        let k = ctx.draw(12);
        let v = (ctx.draw(4) as u64, "\u{e9}\"\\\n".repeat(ctx.draw(3)), [None, Some(-4), Some(i32::MAX)][ctx.draw(3)]);
        w[NodeIndex::new(k)] = v.0;
        w[PortIndex::new(k)] = v.1.clone();
        m[PortIndex::new(k)] = v.2;
        model.insert(k, v);
        if ctx.chance(30) {
            w = through_disk(ctx, &w, "Weights", &|a, b| a.nodes == b.nodes && a.ports == b.ports);
            m = through_disk(ctx, &m, "UnmanagedDenseMap", &|a, b| a == b);
            for k in 0..20 {
                let (a, b, c) = model.get(&k).cloned().unwrap_or((0, String::new(), Some(-4)));
                check_eq!(w[NodeIndex::new(k)], a, "restore", "weight of node {k}");
                check_eq!(w[PortIndex::new(k)], b, "restore", "weight of port {k}");
                check_eq!(m[PortIndex::new(k)], c, "restore", "entry {k}");
            }
        }
    }
}
/// The small types that users store next to a graph.
fn io_small(ctx: &mut Ctx) {
    ctx.max_steps = 4;
    while ctx.next_step() {
        let k = ctx.draw(70_000);
        let nodes: Vec<NodeIndex> = (0..ctx.draw(5)).map(|i| NodeIndex::new(k + i)).chain([NodeIndex::new(0)]).collect();
        through_disk(ctx, &nodes, "node indices", &|a, b| a == b);
        let ports: Vec<PortIndex> = (0..ctx.draw(5)).map(|i| PortIndex::new(k + i)).chain([PortIndex::new(0)]).collect();
        through_disk(ctx, &ports, "port indices", &|a, b| a == b);
        let offs: Vec<PortOffset> = (0..ctx.draw(5) + 1).map(|i| PortOffset::new(dir(i % 2), (k + i) % 32767)).collect();
        through_disk(ctx, &offs, "port offsets", &|a, b| a == b);
        let set: HashSet<NodeIndex> = nodes.iter().copied().collect();
        // The order of a hash set is not stable between encodings of copies.
        let back: HashSet<NodeIndex> = decode(Codec::Json, &encode(Codec::Json, &set));
        check_eq!(back, set, "restore", "set of nodes");
        let dirs = vec![Direction::Incoming, Direction::Outgoing, Direction::Outgoing];
        through_disk(ctx, &dirs, "directions", &|a, b| a == b);
    }
}

// ------------------------------------------------------------- replicas

pub const P05: CheckDef = CheckDef {
    id: "P05",
    f: p05,
    quick_runs: 40_000,
    thorough_runs: 800_000,
    about: "a primary executes a random history; replicas that start empty, as clones or from checkpoints apply the same calls, doing their own reserving, shrinking, cloning and restarting in between, one of them in another thread with other hash seeds; results, equality and all queries are compared",
    real: "PortGraph, MultiPortGraph, Hierarchy, Weights, serde codecs, std hash maps with different keys",
    stub: "the durable store of checkpoints (memory), the source of hash keys",
    assumes: &["replication delivers every call exactly once and in order (the network is the caller's)"],
};
fn p05(ctx: &mut Ctx) {
    match ctx.draw(5) {
        0 | 1 => replicas::<PortGraph>(ctx),
        2 | 3 => replicas::<MultiPortGraph>(ctx),
        _ => replica_hierarchies(ctx),
    }
}

struct Replica<G> {
    g: G,
    name: &'static str,
    results: Vec<String>,
}

fn replicas<G: Gr>(ctx: &mut Ctx) {
    let mut mix = Mix::draw(ctx, 10);
    for k in [14, 15, 16] {
        mix.w[k] = 0;
    }
    ctx.max_steps = ctx.range(5, if ctx.thorough { 140 } else { 70 });
    let prefix = ctx.draw(30);
    let mut w = World::<G>::new(ctx, mix);
    let fresh = G::empty();
    check!(w.g == fresh, "equal", "two empty graphs differ");
    w.calls = Some(vec![]);
    let mut all: Vec<Call> = vec![];
    let mut rs: Vec<Replica<G>> = vec![Replica { g: fresh, name: "replica from empty", results: vec![] }];
    let mut i = 0;
    let mut frozen: Option<(G, Expected)> = None;
    while ctx.next_step() {
        if i == prefix {
            rs.push(Replica { g: w.g.clone(), name: "clone", results: rs[0].results.clone() });
            let c = *ctx.pick(&CODECS).unwrap();
            rs.push(Replica { g: decode(c, &encode(c, &w.g)), name: "restored checkpoint", results: rs[0].results.clone() });
            // A copy that nobody operates on.
            frozen = Some((w.g.clone(), w.m.e.clone()));
        }
        i += 1;
        w.step(ctx);
        let calls = std::mem::take(w.calls.as_mut().unwrap());
        for r in &mut rs {
            for c in &calls {
                // What a replica does on its own.
                match ctx.draw(12) {
                    0 => {
                        ctx.fault("reserve on one replica");
                        let (a, b) = (ctx.draw(40), ctx.draw(80));
                        r.g.reserve(a, b);
                    }
                    1 => {
                        ctx.fault("shrink on one replica");
                        r.g.shrink_to_fit();
                    }
                    2 => r.g = r.g.clone(),
                    3 => {
                        ctx.fault("restart of one replica");
                        let c = *ctx.pick(&CODECS).unwrap();
                        r.g = decode(c, &encode(c, &r.g));
                    }
                    _ => {}
                }
                let s = c.apply(&mut r.g);
                r.results.push(s);
            }
            check!(r.g == w.g, "diverged", "{}: {} differs from the primary", w.last, r.name);
        }
        all.extend(calls);
        let first = rs[0].results.last().cloned();
        for r in &rs {
            check_eq!(r.results.last().cloned(), first, "results", "{}: result on the {}", w.last, r.name);
        }
        if ctx.chance(15) {
            w.check();
            for r in &rs {
                check_view(&r.g, &w.m.e, r.name, &[], &[]);
                r.g.g_check_subports(&w.m.e, r.name);
            }
        }
    }
    // The same history elsewhere, with other hash seeds.
    let seed = ctx.hash_seed ^ 0x5a5a_1234;
    let (g, results) = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            seed_thread(seed);
            let mut g = G::empty();
            let res: Vec<String> = all.iter().map(|c| c.apply(&mut g)).collect();
            (g, res)
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| fail!("diverged", "the calls of the history panic on a replica with other hash seeds"));
    ctx.fault("other hash seeds");
    check!(g == w.g, "diverged", "a replica with other hash seeds differs from the primary");
    check!(results == rs[0].results, "results", "a replica with other hash seeds returned other results");
    w.last = "end".into();
    w.check();
    if let Some((g, e)) = frozen {
        ctx.probe("untouched copy compared");
        check_view(&g, &e, "an untouched copy of the primary", &[], &[]);
        g.g_check_subports(&e, "an untouched copy of the primary");
    }
}

fn replica_hierarchies(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(5, 70);
    let upto = ctx.range(2, 10);
    let mut w = HWorld::new(ctx, upto);
    // The primary's own restarts are not replicated.
    w.no_restarts();
    let mut weights: Weights<u64, u64> = Weights::new();
    let mut rs: Vec<(Hierarchy, Weights<u64, u64>)> = vec![(Hierarchy::new(), Weights::new())];
    let prefix = ctx.draw(20);
    let mut i = 0;
    let mut frozen: Option<(Hierarchy, Forest, Weights<u64, u64>)> = None;
    let same = |a: &Weights<u64, u64>, b: &Weights<u64, u64>| a.nodes == b.nodes && a.ports == b.ports;
    while ctx.next_step() {
        if i == prefix {
            rs.push((w.h.clone(), weights.clone()));
            let c = *ctx.pick(&CODECS).unwrap();
            rs.push((decode(c, &encode(c, &w.h)), decode(c, &encode(c, &weights))));
            frozen = Some((w.h.clone(), w.f.clone(), weights.clone()));
        }
        i += 1;
        w.step(ctx);
        let calls = std::mem::take(&mut w.calls);
        let (k, v) = (ctx.draw(20), ctx.draw(5) as u64);
        weights[n(k)] = v;
        weights[p(k / 2)] = v + 1;
        weights.ports.rekey(p(v as usize), Some(p(k)));
        weights.nodes.swap(n(v as usize), n(k));
        for (h, x) in &mut rs {
            for c in &calls {
                match ctx.draw(12) {
                    0 => {
                        ctx.fault("reserve on one replica");
                        let k = ctx.draw(60);
                        h.ensure_capacity(k);
                        x.nodes.ensure_capacity(k);
                    }
                    1 => {
                        ctx.fault("shrink on one replica");
                        let k = w.f.bound().max(upto + 4);
                        h.shrink_to(k);
                        x.ports.shrink_to(40);
                    }
                    2 => *h = h.clone(),
                    3 => {
                        ctx.fault("restart of one replica");
                        let c = *ctx.pick(&CODECS).unwrap();
                        *h = decode(c, &encode(c, h));
                        *x = decode(c, &encode(c, x));
                    }
                    _ => {}
                }
                c.apply(h);
            }
            x[n(k)] = v;
            x[p(k / 2)] = v + 1;
            x.ports.rekey(p(v as usize), Some(p(k)));
            x.nodes.swap(n(v as usize), n(k));
            check!(*h == w.h && w.h == *h, "diverged", "{}: a replica of the hierarchy differs from the primary", w.last);
            check!(same(x, &weights) && same(&weights, x), "diverged", "a replica of the weights differs from the primary");
            if ctx.chance(20) {
                check_hierarchy(h, &w.f, upto + 5, "replica");
            }
        }
    }
    w.check();
    if let Some((h, f, x)) = frozen {
        check_hierarchy(&h, &f, upto + 5, "an untouched copy");
        let _ = x.nodes.get(n(0));
    }
}
