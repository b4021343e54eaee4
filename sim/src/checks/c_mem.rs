//! The same work again and again takes the same space.

use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::{check, fail};
use ::portgraph::algorithms::*;
use ::portgraph::view::*;
use ::portgraph::*;
use ::portgraph::portgraph::PortOperation;
use bitvec::vec::BitVec;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;

/// The system's allocator, which counts the bytes each thread holds.
struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = LIVE.try_with(|x| x.set(x.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

fn live() -> i64 {
    LIVE.with(|x| x.get())
}
/// The bytes a copy takes: what the content needs, without spare capacity.
fn size_of_copy<T: Clone>(x: &T) -> i64 {
    let before = live();
    let copy = x.clone();
    let n = live() - before;
    drop(copy);
    n
}
/// The bytes held by a value.
fn held<T>(x: T) -> i64 {
    let before = live();
    drop(x);
    before - live()
}

pub const P28: CheckDef = CheckDef {
    id: "P28",
    f: p28,
    quick_runs: 80_000,
    thorough_runs: 1_500_000,
    about: "a drawn script of calls (adding, removing, linking, resizing, swapping, copying, inserting, compacting, shrinking, restarting from a checkpoint, failing calls) over a graph with a hierarchy and weights ends with every node removed and is repeated over and over, under an allocator that counts bytes: after a start, the repetitions must not take more and more space, and must give the same results; at the end, part of the script is followed by compaction and shrinking, and the graph must take no more space than one built from its content",
    real: "the whole library, serde_json, rmp-serde, hash maps",
    stub: "the allocator counts and passes on to the system's; the store of checkpoints (memory)",
    assumes: &["shrinking leaves no more than twice the space of a newly built graph, and 1 kB"],
};
fn p28(ctx: &mut Ctx) {
    match ctx.draw(6) {
        0 | 1 => cycles::<PortGraph>(ctx, PortGraph::empty, Some(whole())),
        2 | 3 => cycles::<MultiPortGraph>(ctx, MultiPortGraph::empty, Some(whole())),
        4 => cycles(ctx, || DynamicTopoConvexChecker::new(PortGraph::empty()), None),
        _ => cycles(ctx, || DynamicTopoConvexChecker::new(MultiPortGraph::empty()), None),
    }
}

/// What graphs do, and checkers do not.
#[derive(Clone, Copy)]
struct Whole<G> {
    size: fn(&G) -> i64,
    copy: fn(&G) -> G,
    restart: fn(&G, Codec) -> G,
}
fn whole<G: Gr>() -> Whole<G> {
    Whole { size: size_of_copy, copy: G::clone, restart: |g, c| decode(c, &encode(c, g)) }
}

const SLOTS: usize = 10;
#[derive(Clone, Copy, Debug)]
struct Op {
    kind: usize,
    a: usize,
    b: usize,
    i: usize,
    o: usize,
}
/// Kinds of calls, and how often they are drawn.
const KINDS: [(&str, u32); 21] = [
    ("add_node", 24),
    ("remove_node", 12),
    ("link_nodes", 24),
    ("unlink_port", 8),
    ("set_num_ports", 10),
    ("swap_nodes", 4),
    ("compact_nodes", 2),
    ("compact_ports", 2),
    ("shrink_to_fit", 2),
    ("clone", 2),
    ("restart", 2),
    ("insert_graph", 4),
    ("copy_in_parent", 4),
    ("clear", 1),
    ("reserve", 1),
    ("link_ports that fails", 3),
    ("attach to a parent", 8),
    ("detach from the parent", 3),
    ("detach the children", 2),
    ("set weights", 8),
    ("shrink the maps", 2),
];

struct World<G> {
    g: G,
    h: Hierarchy,
    w: Weights<u32, u8>,
    marks: HashMap<NodeIndex, u8>,
    bits: BitVec,
    slots: [Option<NodeIndex>; SLOTS],
    digest: Fnv,
    /// One above the highest indices of nodes and ports given to the maps.
    used: (usize, usize),
}

impl<G: LinkMut + PortMut + LinkView<PortOffsetBase = u16> + 'static> World<G> {
    fn new(g: G) -> Self {
        World { g, h: Hierarchy::new(), w: Weights::new(), marks: HashMap::new(), bits: BitVec::new(), slots: [None; SLOTS], digest: Fnv(0), used: (0, 0) }
    }
    fn forget(&mut self, x: NodeIndex) {
        self.h.remove(x);
        for q in self.g.all_ports(x) {
            self.w.ports.remove(q);
        }
        self.w.nodes.remove(x);
        self.marks.remove(&x);
        SecondaryMap::<NodeIndex, bool>::remove(&mut self.bits, x);
        self.g.remove_node(x);
    }
    fn remove_all(&mut self) {
        for k in 0..SLOTS {
            if let Some(x) = self.slots[k].take() {
                self.forget(x);
            }
        }
    }
    /// New nodes get free slots, or are removed.
    fn place(&mut self, x: NodeIndex) {
        match self.slots.iter_mut().find(|s| s.is_none()) {
            Some(s) => *s = Some(x),
            None => self.forget(x),
        }
    }
    fn uses(&mut self, x: NodeIndex) {
        self.used.0 = self.used.0.max(x.index() + 1);
        for q in self.g.all_ports(x) {
            self.used.1 = self.used.1.max(q.index() + 1);
        }
    }
    fn note(&mut self, x: usize) {
        self.digest.0 = (self.digest.0 ^ x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    fn apply(&mut self, op: Op, c: Codec, whole: &Option<Whole<G>>, guest: &PortGraph) {
        let (a, b) = (self.slots[op.a], self.slots[op.b]);
        self.note(op.kind);
        if matches!(op.kind, 4 | 5 | 16 | 19) {
            for x in a.into_iter().chain(b) {
                self.uses(x);
            }
        }
        match (op.kind, a, b) {
            (0, None, _) => self.slots[op.a] = Some(self.g.add_node(op.i, op.o)),
            (1, Some(x), _) => {
                self.slots[op.a] = None;
                self.forget(x);
            }
            // Checkers reject cycles with a panic.
            (2 | 15, Some(x), Some(y)) if whole.is_none() && reaches(&self.g, y, x) => (),
            (2, Some(x), Some(y)) => {
                let r = self.g.link_nodes(x, op.o, y, op.i).is_ok();
                self.note(r as usize);
            }
            (3, Some(x), _) => {
                if let Some(q) = self.g.output(x, op.o).or(self.g.input(x, op.i)) {
                    let mut k = 0;
                    while self.g.unlink_port(q).is_some() {
                        k += 1;
                    }
                    self.note(k);
                }
            }
            (4, Some(x), _) => {
                let w = &mut self.w;
                self.g.set_num_ports(x, op.i, op.o, |q, what| match what {
                    PortOperation::Removed { .. } => {
                        w.ports.remove(q);
                    }
                    PortOperation::Moved { new_index } => w.ports.rekey(q, Some(new_index)),
                });
                self.uses(x);
            }
            (5, Some(x), Some(y)) => {
                self.g.swap_nodes(x, y);
                self.h.swap_nodes(x, y);
                self.w.nodes.swap(x, y);
                self.slots.swap(op.a, op.b);
            }
            (6, _, _) => {
                let World { g, h, w, marks, bits, slots, .. } = self;
                g.compact_nodes(|old, new| {
                    if old != new {
                        h.rekey(old, new);
                        w.nodes.rekey(old, Some(new));
                        if let Some(m) = marks.remove(&old) {
                            marks.insert(new, m);
                        }
                        SecondaryMap::<NodeIndex, bool>::rekey(bits, old, Some(new));
                        for s in slots.iter_mut().filter(|s| **s == Some(old)) {
                            *s = Some(new);
                        }
                    }
                });
            }
            (7, _, _) => {
                let w = &mut self.w;
                self.g.compact_ports(|old, new| {
                    if old != new {
                        w.ports.rekey(old, Some(new));
                    }
                });
            }
            (8, _, _) => self.g.shrink_to_fit(),
            (9, _, _) => {
                if let Some(f) = whole {
                    self.g = (f.copy)(&self.g);
                }
                self.h = self.h.clone();
                self.w = self.w.clone();
            }
            (10, _, _) => {
                if let Some(f) = whole {
                    self.g = (f.restart)(&self.g, c);
                    self.h = decode(c, &encode(c, &self.h));
                }
            }
            (11, _, _) => {
                if let Ok(map) = self.g.insert_graph(guest) {
                    for x in guest.nodes_iter() {
                        self.place(map[&x]);
                    }
                }
            }
            (12, _, _) => {
                let mut set = [None; SLOTS];
                for k in 0..SLOTS {
                    if (k + op.a) % 3 < op.b % 4 {
                        set[k] = self.slots[k];
                    }
                }
                let nodes = set.iter().filter_map(|x| *x);
                if nodes.clone().next().is_some() {
                    let r = Subgraph::with_nodes(&mut self.g, nodes).copy_in_parent();
                    self.note(r.is_ok() as usize);
                    if let Ok(map) = r {
                        for x in set.iter().filter_map(|x| *x) {
                            self.place(map[&x]);
                        }
                    }
                }
            }
            (13, _, _) => {
                for k in 0..SLOTS {
                    if let Some(x) = self.slots[k].take() {
                        self.h.remove(x);
                        self.marks.remove(&x);
                    }
                }
                self.g.clear();
            }
            (14, _, _) => self.g.reserve(op.i, op.o),
            (15, Some(x), Some(y)) => {
                let q = self.g.output(x, op.o).zip(self.g.output(y, op.i));
                if let Some((p, q)) = q {
                    let r = self.g.link_ports(p, q).is_ok();
                    self.note(r as usize);
                }
            }
            (16, Some(x), Some(y)) => {
                let r = self.h.push_child(x, y).is_ok();
                self.note(r as usize);
            }
            (17, Some(x), _) => {
                self.h.detach(x);
            }
            (18, Some(x), _) => self.h.detach_children(x),
            (19, Some(x), _) => {
                self.w.nodes.set(x, op.i as u32 + 1);
                self.marks.insert(x, op.o as u8);
                SecondaryMap::<NodeIndex, bool>::set(&mut self.bits, x, op.o % 2 == 0);
                for q in self.g.all_ports(x) {
                    self.w.ports.set(q, op.o as u8 + 1);
                }
            }
            (20, _, _) => {
                let upto = self.g.nodes_iter().map(|x| x.index() + 1).max().unwrap_or(0);
                self.h.shrink_to(upto);
                self.w.nodes.shrink_to(upto);
            }
            _ => (),
        }
        self.note(self.g.node_count());
        self.note(self.g.port_count());
        self.note(self.g.link_count());
    }
}

/// Asking views and checkers over and over takes no more space than asking
/// a few times.
fn queries<G: LinkMut + PortMut + LinkView<PortOffsetBase = u16> + 'static>(w: &World<G>) {
    let nodes = w.slots.iter().filter_map(|x| *x);
    let Some(root) = nodes.clone().next() else { return };
    let acyclic = w.g.nodes_iter().all(|x| w.g.output_neighbours(x).all(|y| !reaches(&w.g, y, x)));
    let (region, flat) = (Region::new(&w.g, &w.h, root), FlatRegion::new(&w.g, &w.h, root));
    let sub = Subgraph::with_nodes(&w.g, nodes.clone().step_by(2));
    let topo = acyclic.then(|| TopoConvexChecker::new(&w.g));
    let line = acyclic.then(|| LineConvexChecker::new(&w.g));
    let mut early = 0;
    for k in 0..24 {
        for x in nodes.clone() {
            let (a, b, c) = (region.contains_node(x), flat.contains_node(x), sub.contains_node(x));
            for q in w.g.all_ports(x) {
                std::hint::black_box((region.contains_port(q), flat.contains_port(q), sub.contains_port(q)));
            }
            if a {
                std::hint::black_box(region.all_neighbours(x).count());
            }
            if b {
                std::hint::black_box(flat.all_neighbours(x).count());
            }
            if c {
                std::hint::black_box(sub.all_neighbours(x).count());
            }
        }
        std::hint::black_box((region.link_count(), flat.link_count(), sub.link_count(), region.nodes_iter().count()));
        for skip in 0..3 {
            let set = || nodes.clone().skip(skip).step_by(skip + 1);
            if let Some(t) = &topo {
                std::hint::black_box(t.is_node_convex(set()));
            }
            if let Some(t) = &line {
                std::hint::black_box((t.is_node_convex(set()), t.get_intervals_from_nodes(set())));
            }
        }
        let t: TopoSort<_> = toposort(&w.g, nodes.clone(), Direction::Outgoing);
        std::hint::black_box(t.count());
        if k == 3 {
            early = live();
        }
    }
    let more = live() - early;
    check!(more <= 256, "queries keep space", "a region, a flat region, a subgraph and convexity checkers hold {more} bytes more after 24 rounds of the same questions than after 4");
}
fn reaches(g: &impl LinkView, from: NodeIndex, to: NodeIndex) -> bool {
    let mut seen = vec![from];
    let mut k = 0;
    while k < seen.len() {
        for y in g.output_neighbours(seen[k]) {
            if !seen.contains(&y) {
                seen.push(y);
            }
        }
        k += 1;
    }
    seen.contains(&to)
}

fn cycles<G: LinkMut + PortMut + LinkView<PortOffsetBase = u16> + 'static>(ctx: &mut Ctx, empty: fn() -> G, whole: Option<Whole<G>>) {
    let mut guest = PortGraph::new();
    let (x, y) = (guest.add_node(1, 2), guest.add_node(2, 0));
    guest.link_nodes(x, 0, y, 1).expect("link");
    let c = *ctx.pick(&CODECS).unwrap();
    let most = [3, 6, 12][ctx.draw(3)];
    let ws: Vec<u32> = KINDS.iter().map(|k| if ctx.draw(6) == 1 { 0 } else { k.1 }).collect();
    ctx.max_steps = ctx.range(3, if ctx.thorough { 90 } else { 60 });
    let mut script = vec![];
    while ctx.next_step() {
        let kind = ctx.weighted(&ws);
        let op = Op { kind, a: ctx.draw(SLOTS), b: ctx.draw(SLOTS), i: ctx.draw(most), o: ctx.draw(most) };
        ctx.op(KINDS[kind].0);
        if kind == 10 {
            ctx.fault("restart");
        }
        if kind == 15 {
            ctx.fault("a call that fails");
        }
        ctx.log(|| format!("{} slot {} slot {} ({}, {})", KINDS[kind].0, op.a, op.b, op.i, op.o));
        script.push(op);
    }
    let times = if whole.is_some() { [32, 48, 96][ctx.draw(3)] } else { 200 };
    let stop = ctx.draw(script.len() + 1);
    let base = live();
    let mut w = World::<G>::new(empty());
    let (mut sizes, mut lives) = (Vec::with_capacity(times), Vec::with_capacity(times));
    let extra = live();
    let mut first = 0;
    for k in 0..times {
        w.digest = Fnv(0);
        for (at, op) in script.iter().enumerate() {
            w.apply(*op, c, &whole, &guest);
            check!(live() - base < 64 << 20, "space explodes", "{} MB are held after call {at} of repetition {k}", (live() - base) >> 20);
        }
        w.remove_all();
        check!(w.g.node_count() == 0 && w.g.port_count() == 0 && w.g.link_count() == 0, "not empty", "repetition {k} removed every node, and left {} nodes, {} ports, {} links", w.g.node_count(), w.g.port_count(), w.g.link_count());
        if k == 0 {
            first = w.digest.0;
        }
        check!(w.digest.0 == first, "results differ", "repetition {k} of the same calls on an empty graph gives other results or counts than the first");
        let maps = size_of_copy(&w.h) + size_of_copy(&w.w) + size_of_copy(&w.marks) + size_of_copy(&w.bits);
        sizes.push((whole.as_ref().map_or(0, |f| (f.size)(&w.g)), maps));
        lives.push(live() - extra);
    }
    ctx.state(w.digest.0 ^ sizes.last().unwrap().0 as u64);
    let s: Vec<i64> = sizes.iter().map(|x| x.0).collect();
    let half = s[..times / 2].iter().copied().max().unwrap();
    let (mut top, mut grew) = (half, vec![]);
    for (k, x) in s.iter().enumerate().skip(times / 2) {
        if *x > top {
            top = *x;
            grew.push((k, *x));
        }
    }
    // Flags of ports may come to be set at higher indices.
    let flags = top / 64 + 64;
    check!(grew.len() < 4 || top - half < flags, "space grows", "the same calls are repeated {times} times, and the empty graph takes more and more bytes: {} after the first, and (repetition, bytes) {grew:?}", s[0]);
    // Maps may be as large as the highest index, which depends on the order of
    // the free indices.
    let bound = 96 * w.used.0 as i64 + 24 * w.used.1 as i64 + 1024;
    let maps = sizes.iter().map(|x| x.1).max().unwrap();
    check!(maps <= bound, "large maps", "the hierarchy and maps take {maps} bytes, but were given {} nodes and {} ports at most", w.used.0, w.used.1);
    let (early, end) = (*lives[..times / 8].iter().max().unwrap(), *lives.last().unwrap());
    check!(end <= 3 * early + if whole.is_some() { 4096 } else { 1024 }, "memory grows", "the same calls are repeated {times} times, and hold {end} bytes in the end but {early} after {} repetitions", times / 8);

    if whole.is_none() {
        return;
    }
    for op in &script[..stop] {
        w.apply(*op, c, &whole, &guest);
    }
    queries(&w);
    ctx.log(|| format!("compacted and shrunk after {stop} calls"));
    let compact = |g: &mut G| {
        g.compact_nodes(|_, _| {});
        g.compact_ports(|_, _| {});
        g.shrink_to_fit();
    };
    compact(&mut w.g);
    let mut other = empty();
    if let Err(e) = other.insert_graph(&w.g) {
        fail!("insert_graph", "inserting into an empty graph: {e:?}");
    }
    compact(&mut other);
    let (nodes, ports, links) = (w.g.node_count(), w.g.port_count(), w.g.link_count());
    let World { g, mut h, w: mut weights, .. } = w;
    let (a, b) = (held(g), held(other));
    check!(a <= 2 * b + 1024, "shrunk graph", "{nodes} nodes, {ports} ports and {links} links take {a} bytes after {times} repetitions, compaction and shrink_to_fit, but {b} in a new graph");
    // Nothing has to be kept of these.
    h.shrink_to(0);
    weights.nodes.shrink_to(0);
    weights.ports.shrink_to(0);
    let n = held(h) + held(weights);
    check!(n <= 1024, "shrunk maps", "a hierarchy and weights shrunk to nothing take {n} bytes");
}
