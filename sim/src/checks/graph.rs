//! Refinement of the graphs, side tables, and rejected operations.

use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::{check, check_eq};
use bitvec::vec::BitVec;
use ::portgraph::*;
use std::collections::{BTreeMap, HashSet};

const ASSUMES: &[&str] = &[
    "the reference model (sets of nodes, ordered ports, symmetric links) states the intended behaviour",
    "graphs of up to about 14 nodes, except for rare runs with up to 140 nodes or with very large port lists",
];

pub const P01: CheckDef = CheckDef {
    id: "P01",
    f: p01,
    quick_runs: 50_000,
    thorough_runs: 1_000_000,
    about: "1 to 3 interleaved clients with fresh and stale handles mutate one PortGraph through crashes and restarts; every answer of the graph is compared with the model after every step",
    real: "PortGraph with all its queries and mutators, serde codecs",
    stub: "the durable store of checkpoints (memory)",
    assumes: ASSUMES,
};
pub const P04: CheckDef = CheckDef {
    id: "P04",
    f: p04,
    quick_runs: 60_000,
    thorough_runs: 1_000_000,
    about: "1 to 3 interleaved clients with fresh and stale handles mutate one MultiPortGraph through crashes and restarts; every answer of the graph is compared with the model after every step",
    real: "MultiPortGraph and the PortGraph below it, serde codecs",
    stub: "the durable store of checkpoints (memory)",
    assumes: ASSUMES,
};

fn p01(ctx: &mut Ctx) {
    match ctx.draw(14) {
        12 => refinement::<PortGraph<u32, u32, u8>>(ctx),
        13 => refinement::<PortGraph<u32, u32, u32>>(ctx),
        _ => refinement::<PortGraph>(ctx),
    }
}
fn p04(ctx: &mut Ctx) {
    match ctx.draw(14) {
        12 => refinement::<MultiPortGraph<u32, u32, u8>>(ctx),
        13 => refinement::<MultiPortGraph<u32, u32, u32>>(ctx),
        _ => refinement::<MultiPortGraph>(ctx),
    }
}

/// Byte offsets allow fewer ports per node.
fn fitting<G: AnyGr>(ctx: &mut Ctx, mix: Mix) -> Mix {
    match G::O::BITS {
        8 => {
            ctx.probe("byte offsets");
            mix.at_most(48)
        }
        32 => {
            ctx.probe("word offsets");
            mix
        }
        _ => mix,
    }
}

fn refinement<G: AnyGr>(ctx: &mut Ctx) {
    let byte = G::O::BITS == 8;
    let one_in = if byte { 8 } else { 200 };
    if ctx.draw(one_in) == one_in - 1 {
        return large::<G>(ctx);
    }
    let mix = Mix::draw(ctx, 12);
    let mix = fitting::<G>(ctx, mix);
    let every = *ctx.pick(&[1, 3, 8]).unwrap();
    ctx.max_steps = ctx.range(10, if ctx.thorough { 160 } else { 90 });
    let mut w = if G::MULTI && G::O::BITS == 16 && ctx.draw(12) == 11 { World::<G>::converted(ctx, mix) } else { World::<G>::new(ctx, mix) };
    w.check();
    let mut i = 0;
    while ctx.next_step() {
        w.step(ctx);
        i += 1;
        if i % every == 0 || w.rejected {
            w.check();
        }
    }
    w.check();
}

/// Few nodes with very many ports, around the limits of the counters.
fn large<G: AnyGr>(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(5, if G::O::BITS == 8 { 40 } else { 20 });
    ctx.probe("very large port lists");
    let mut mix = Mix::draw(ctx, 3).build();
    mix.w = vec![0; OPS.len()];
    for (k, w) in [(1, 1), (2, 12), (3, 2), (4, 3), (5, 1), (6, 1), (8, 1), (9, 1), (10, 1), (12, 1), (15, 1), (16, 1)] {
        mix.w[k] = w;
    }
    let mut w = World::<G>::new(ctx, mix);
    w.mix.beyond = true;
    let lim = Limits::of::<G>();
    let max = lim.each;
    let mut sizes = vec![0usize, 1, max - 1, max];
    match G::O::BITS {
        8 => sizes.extend([3, 31, 32, 33, 63, 64, 65, 100, 125]),
        16 => sizes.extend([255, 256, 1000, 4095, 8191, 16383, 16384, 16385, 20000]),
        _ => sizes.extend([255, 256, 1000, 16384, 20000, 32765, 32766, 32767, 32768, 45000, 65533]),
    }
    let draw = |ctx: &mut Ctx| {
        let (a, b) = (*ctx.pick(&sizes).unwrap(), *ctx.pick(&sizes).unwrap());
        if lim.within(a, b) {
            (a, b)
        } else if ctx.draw(2) == 0 {
            (a, lim.total - a)
        } else {
            (lim.total - b, b)
        }
    };
    while ctx.next_step() {
        let x = w.live_node(ctx);
        match (ctx.draw(6), x) {
            (0, Some(x)) if ctx.chance(15) => {
                let (a, b) = lim.draw_beyond(ctx);
                ctx.op("set_num_ports (beyond)");
                w.refuse_ports(x, a, b);
                ctx.log(|| format!("set_num_ports({x}, {a}, {b}) [refused]"));
            }
            (0 | 1, Some(x)) => {
                let (a, b) = draw(ctx);
                ctx.op("set_num_ports (large)");
                w.set_num_ports(x, a, b);
                ctx.log(|| format!("set_num_ports({x}, {a}, {b})"));
            }
            (2, Some(x)) => {
                // Just around a capacity boundary.
                let cur = w.m.e.nodes[&x].clone();
                let b = cur[1].len().saturating_sub(ctx.draw(2));
                let a = (cur[0].len() + 1).min(max).min(lim.total - b);
                ctx.op("set_num_ports (large)");
                w.set_num_ports(x, a, b);
                ctx.log(|| format!("set_num_ports({x}, {a}, {b})"));
            }
            (3, _) | (_, None) if w.m.e.nodes.len() < 3 => {
                let (a, b) = draw(ctx);
                ctx.op("add_node (large)");
                w.add_node(ctx, a, b);
                ctx.log(|| format!("add_node({a}, {b})"));
            }
            _ => w.step(ctx),
        }
        if ctx.chance(30) {
            w.check();
        }
    }
    w.check();
}

// ---------------------------------------------------------------- P02

pub const P02: CheckDef = CheckDef {
    id: "P02",
    f: p02,
    quick_runs: 60_000,
    thorough_runs: 1_000_000,
    about: "a client keeps node and port data in every kind of side table and only applies the moves that the graph reports, on PortGraph or MultiPortGraph, through crashes that restore graph and tables together",
    real: "PortGraph, MultiPortGraph, Weights, UnmanagedDenseMap, and the SecondaryMap implementations of BitVec and HashSet, SecondaryMap default methods",
    stub: "a caller-defined SecondaryMap over BTreeMap",
    assumes: ASSUMES,
};

/// A caller's own map, that uses the default methods of the trait.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct OwnMap(pub BTreeMap<usize, u64>);
impl<K: Into<usize> + TryFrom<usize> + 'static> SecondaryMap<K, u64> for OwnMap {
    type Iter<'a> = Box<dyn Iterator<Item = (K, &'a u64)> + 'a>;
    fn new() -> Self {
        OwnMap::default()
    }
    fn with_capacity(_: usize) -> Self {
        OwnMap::default()
    }
    fn default_value(&self) -> u64 {
        0
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        usize::MAX
    }
    fn get(&self, key: K) -> &u64 {
        self.0.get(&key.into()).unwrap_or(&0)
    }
    fn set(&mut self, key: K, val: u64) {
        if val == 0 {
            self.0.remove(&key.into());
        } else {
            self.0.insert(key.into(), val);
        }
    }
    fn take(&mut self, key: K) -> u64 {
        self.0.remove(&key.into()).unwrap_or(0)
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        K: 'a,
    {
        Box::new(self.0.iter().map(|(k, v)| (K::try_from(*k).ok().unwrap(), v)))
    }
}

/// Every kind of side table, keyed by nodes or ports.
#[derive(Clone, Debug)]
struct Tables<K: std::hash::Hash + Eq + Clone + Copy + Into<usize> + TryFrom<usize> + std::fmt::Debug + 'static> {
    dense: UnmanagedDenseMap<K, u64>,
    swapped: UnmanagedDenseMap<K, u64>,
    own: OwnMap,
    own_swapped: OwnMap,
    bits: BitVec,
    bits_swapped: BitVec,
    set: HashSet<K>,
    set_swapped: HashSet<K>,
}
impl<K: std::hash::Hash + Eq + Clone + Copy + Into<usize> + TryFrom<usize> + std::fmt::Debug + 'static> Tables<K> {
    fn new() -> Self {
        Tables {
            dense: UnmanagedDenseMap::new(),
            swapped: UnmanagedDenseMap::with_capacity(4),
            own: OwnMap::default(),
            own_swapped: OwnMap::default(),
            bits: BitVec::new(),
            bits_swapped: BitVec::new(),
            set: HashSet::new(),
            set_swapped: HashSet::new(),
        }
    }
    fn set(&mut self, k: K, uid: u64) {
        let odd = uid % 2 == 1;
        self.dense[k] = uid;
        SecondaryMap::set(&mut self.swapped, k, uid);
        SecondaryMap::set(&mut self.own, k, uid);
        SecondaryMap::set(&mut self.own_swapped, k, uid);
        SecondaryMap::set(&mut self.bits, k, odd);
        SecondaryMap::set(&mut self.bits_swapped, k, odd);
        SecondaryMap::set(&mut self.set, k, odd);
        SecondaryMap::set(&mut self.set_swapped, k, odd);
    }
    fn moved(&mut self, a: K, b: Option<K>) {
        self.dense.rekey(a, b);
        SecondaryMap::rekey(&mut self.own, a, b);
        SecondaryMap::rekey(&mut self.bits, a, b);
        SecondaryMap::rekey(&mut self.set, a, b);
        if let Some(b) = b {
            self.swap_only(a, b);
        }
    }
    fn swap_only(&mut self, a: K, b: K) {
        self.swapped.swap(a, b);
        SecondaryMap::swap(&mut self.own_swapped, a, b);
        SecondaryMap::<K, bool>::swap(&mut self.bits_swapped, a, b);
        SecondaryMap::swap(&mut self.set_swapped, a, b);
    }
    fn swap(&mut self, a: K, b: K) {
        self.swap_only(a, b);
        self.dense.swap(a, b);
        SecondaryMap::swap(&mut self.own, a, b);
        SecondaryMap::<K, bool>::swap(&mut self.bits, a, b);
        SecondaryMap::swap(&mut self.set, a, b);
    }
    fn check(&self, k: K, uid: u64, what: &str) {
        let odd = uid % 2 == 1;
        check_eq!(self.dense[k], uid, "side table", "{what}: UnmanagedDenseMap with rekey at {k:?}");
        check_eq!(*self.swapped.get(k), uid, "side table", "{what}: UnmanagedDenseMap with swap at {k:?}");
        check_eq!(*SecondaryMap::get(&self.own, k), uid, "side table", "{what}: caller's map with rekey at {k:?}");
        check_eq!(*SecondaryMap::get(&self.own_swapped, k), uid, "side table", "{what}: caller's map with swap at {k:?}");
        check_eq!(*SecondaryMap::get(&self.bits, k), odd, "side table", "{what}: BitVec with rekey at {k:?}");
        check_eq!(*SecondaryMap::get(&self.bits_swapped, k), odd, "side table", "{what}: BitVec with swap at {k:?}");
        check_eq!(*SecondaryMap::get(&self.set, k), odd, "side table", "{what}: HashSet with rekey at {k:?}");
        check_eq!(*SecondaryMap::get(&self.set_swapped, k), odd, "side table", "{what}: HashSet with swap at {k:?}");
    }
}

#[derive(Clone)]
struct Side {
    nodes: Tables<NodeIndex>,
    ports: Tables<PortIndex>,
    weights: Weights<u64, u64>,
    /// Which node and port identities have been recorded.
    known_n: HashSet<u64>,
    known_p: HashSet<u64>,
}

fn p02(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        tables::<PortGraph>(ctx)
    } else {
        tables::<MultiPortGraph>(ctx)
    }
}

fn tables<G: Gr>(ctx: &mut Ctx) {
    let mut mix = Mix::draw(ctx, 10);
    // More of the operations that move indices.
    for k in [7, 8, 9, 10] {
        mix.w[k] = mix.w[k] * 2 + 3;
    }
    ctx.max_steps = ctx.range(10, if ctx.thorough { 120 } else { 70 });
    let mut w = World::<G>::new(ctx, mix);
    let mut t = Side { nodes: Tables::new(), ports: Tables::new(), weights: Weights::new(), known_n: HashSet::new(), known_p: HashSet::new() };
    let mut saved: Option<Side> = None;
    let tidy = ctx.chance(50);
    while ctx.next_step() {
        w.step(ctx);
        for ev in std::mem::take(&mut w.events) {
            match ev {
                Ev::PortMoved(a, b) => {
                    t.ports.moved(p(a), Some(p(b)));
                    t.weights.ports.rekey(p(a), Some(p(b)));
                    ctx.probe("port move applied");
                }
                Ev::PortRemoved(a, _) => {
                    t.ports.moved(p(a), None);
                    t.weights.ports.rekey(p(a), None);
                    ctx.probe("port removal applied");
                }
                Ev::NodeMoved(a, b) => {
                    t.nodes.moved(n(a), Some(n(b)));
                    t.weights.nodes.rekey(n(a), Some(n(b)));
                    ctx.probe("node move applied");
                }
                Ev::NodesSwapped(a, b) => {
                    t.nodes.swap(n(a), n(b));
                    t.weights.nodes.swap(n(a), n(b));
                }
                Ev::NodeRemoved(x, ports) => {
                    // A client may or may not drop its data about removed nodes.
                    if tidy {
                        t.nodes.moved(n(x), None);
                        for q in ports {
                            t.ports.moved(p(q), None);
                        }
                    }
                }
                Ev::Cleared => {}
                Ev::Checkpoint => saved = Some(t.clone()),
                Ev::Restarted => t = saved.clone().expect("checkpoint of the tables"),
            }
        }
        // The client records data for what it created.
        for (x, u) in &w.m.nuid {
            if t.known_n.insert(*u) {
                t.nodes.set(n(*x), *u);
                t.weights[n(*x)] = *u;
            }
        }
        for (q, u) in &w.m.puid {
            if t.known_p.insert(*u) {
                t.ports.set(p(*q), *u);
                t.weights[p(*q)] = *u;
            }
        }
        if ctx.chance(10) {
            ctx.op("shrink tables");
            let (bn, bp) = (w.m.e.bound_nodes(), w.m.e.bound_ports());
            t.weights.nodes.shrink_to(bn);
            t.weights.ports.shrink_to(bp);
            t.nodes.dense.shrink_to(bn);
            t.ports.dense.shrink_to(bp);
        }
        if ctx.chance(5) {
            let k = ctx.draw(60);
            t.nodes.dense.ensure_capacity(k);
            t.ports.dense.ensure_capacity(k);
        }
        for (x, u) in &w.m.nuid {
            t.nodes.check(n(*x), *u, &w.last);
            check_eq!(t.weights[n(*x)], *u, "weights", "{}: weight of node {x}", w.last);
        }
        for (q, u) in &w.m.puid {
            t.ports.check(p(*q), *u, &w.last);
            check_eq!(t.weights[p(*q)], *u, "weights", "{}: weight of port {q}", w.last);
        }
        if ctx.chance(20) {
            w.check();
        }
    }
    w.check();
}

// ---------------------------------------------------------------- P03

pub const P03: CheckDef = CheckDef {
    id: "P03",
    f: p03,
    quick_runs: 60_000,
    thorough_runs: 1_000_000,
    about: "clients hold mostly stale, foreign, hidden, occupied or wrong-direction handles; after every refused call the whole structure is compared with the model, the named culprit is checked, and the history goes on",
    real: "PortGraph, MultiPortGraph, Hierarchy mutators and queries",
    stub: "none",
    assumes: ASSUMES,
};

fn p03(ctx: &mut Ctx) {
    match ctx.draw(20) {
        0..=6 => rejections::<PortGraph>(ctx),
        7 => rejections::<PortGraph<u32, u32, u8>>(ctx),
        8..=14 => rejections::<MultiPortGraph>(ctx),
        15 => rejections::<MultiPortGraph<u32, u32, u8>>(ctx),
        _ => super::c_hier::rejections(ctx),
    }
}

fn rejections<G: AnyGr>(ctx: &mut Ctx) {
    let mix = Mix::draw(ctx, 8);
    let mut mix = fitting::<G>(ctx, mix);
    mix.beyond = true;
    mix.valid = *ctx.pick(&[55, 30, 75]).unwrap();
    for k in [2, 3, 4, 5, 6] {
        mix.w[k] += 10;
    }
    mix.w[13] = 0;
    ctx.max_steps = ctx.range(10, if ctx.thorough { 120 } else { 70 });
    let mut w = World::<G>::new(ctx, mix);
    while ctx.next_step() {
        // The subports that exist are observable too.
        let before: Vec<Vec<Ep>> = w.m.e.nodes.keys().map(|x| w.g.g_all_subports(*x)).collect();
        let cap: Vec<usize> = w.m.e.nodes.keys().map(|x| w.g.node_port_capacity(n(*x))).collect();
        w.step(ctx);
        if w.rejected {
            let after: Vec<Vec<Ep>> = w.m.e.nodes.keys().map(|x| w.g.g_all_subports(*x)).collect();
            check!(before == after, "rejected call", "{}: the call was rejected, but changed the subports from {before:?} to {after:?}", w.last);
            let cap2: Vec<usize> = w.m.e.nodes.keys().map(|x| w.g.node_port_capacity(n(*x))).collect();
            check!(cap == cap2, "rejected call", "{}: the call was rejected, but changed the port capacities", w.last);
            w.check();
        } else if ctx.chance(25) {
            w.check();
        }
    }
    w.check();
}
