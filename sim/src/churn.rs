//! Simulated clients that mutate a graph, with crashes and restarts from
//! checkpoints. Every call is compared with the reference model.

use crate::engine::*;
use crate::gr::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use ::portgraph::portgraph::PortOperation;
use ::portgraph::view::*;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};

/// What happened to indices during an operation, in the order reported.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    PortMoved(P, P),
    PortRemoved(P, Option<P>),
    NodeMoved(N, N),
    NodesSwapped(N, N),
    /// A removed node, with its ports.
    NodeRemoved(N, Vec<P>),
    Cleared,
    /// The state went back to the last checkpoint.
    Restarted,
    Checkpoint,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Codec {
    Json,
    MsgPack,
    MsgPackNamed,
}
pub const CODECS: [Codec; 3] = [Codec::Json, Codec::MsgPack, Codec::MsgPackNamed];
pub fn encode<T: serde::Serialize>(c: Codec, x: &T) -> Vec<u8> {
    match c {
        Codec::Json => serde_json::to_vec(x).unwrap_or_else(|e| fail!("encode", "JSON: {e}")),
        Codec::MsgPack => rmp_serde::to_vec(x).unwrap_or_else(|e| fail!("encode", "MessagePack: {e}")),
        Codec::MsgPackNamed => rmp_serde::to_vec_named(x).unwrap_or_else(|e| fail!("encode", "MessagePack: {e}")),
    }
}
pub fn decode<T: serde::de::DeserializeOwned>(c: Codec, b: &[u8]) -> T {
    match c {
        Codec::Json => serde_json::from_slice(b).unwrap_or_else(|e| fail!("decode", "JSON: {e}")),
        _ => rmp_serde::from_slice(b).unwrap_or_else(|e| fail!("decode", "MessagePack: {e}")),
    }
}

/// Relative frequencies of the operations of a run.
#[derive(Clone, Debug)]
pub struct Mix {
    pub w: Vec<u32>,
    pub max_nodes: usize,
    pub max_ports: usize,
    /// Percentage of arguments that are fresh and valid.
    pub valid: usize,
    pub acyclic: bool,
    pub clients: usize,
    /// Prefer a few hot ports, so that they get many links.
    pub hot: bool,
    /// Start with this many nodes.
    pub bulk: Option<usize>,
    /// Also ask for more ports than a node can have.
    pub beyond: bool,
}
pub const OPS: [&str; 19] = [
    "add_node",
    "remove_node",
    "link_ports",
    "link_offsets",
    "unlink_port",
    "link_subports",
    "unlink_subport",
    "set_num_ports",
    "swap_nodes",
    "compact_nodes",
    "compact_ports",
    "reserve",
    "shrink",
    "clear",
    "clone",
    "checkpoint",
    "crash-restart",
    "insert_graph",
    "copy_in_parent",
];
const BASE: [u32; 19] = [24, 10, 30, 16, 9, 5, 5, 12, 4, 2, 2, 2, 2, 1, 1, 2, 2, 2, 2];

/// How often a history starts with a larger graph, and its number of nodes.
const BULK_ONE_IN: usize = 120;
const BULK: [usize; 6] = [20, 33, 48, 66, 90, 140];

impl Mix {
    /// Limits the size of larger graphs.
    pub fn at_most(mut self, k: usize) -> Mix {
        self.bulk = self.bulk.map(|b| b.min(k));
        self
    }
    pub fn draw(ctx: &mut Ctx, max_nodes: usize) -> Mix {
        let swarm = ctx.chance(60);
        let w = BASE
            .iter()
            .enumerate()
            .map(|(i, &b)| match (swarm, i) {
                (false, _) | (_, 0) | (_, 2) => b * 2,
                _ => match ctx.draw(4) {
                    0 | 1 => b * 2,
                    2 => 0,
                    _ => b * 6,
                },
            })
            .collect();
        let max_nodes = match ctx.draw(4) {
            0 => max_nodes.min(4),
            1 => max_nodes.min(7),
            _ => max_nodes,
        };
        let max_ports = *ctx.pick(&[3, 2, 5, 9]).unwrap();
        let valid = *ctx.pick(&[90, 97, 70]).unwrap();
        let clients = ctx.range(1, 3);
        let hot = ctx.chance(30);
        let bulk = if ctx.draw(BULK_ONE_IN) == BULK_ONE_IN - 1 { ctx.pick(&BULK).copied() } else { None };
        Mix { w, max_nodes, max_ports, valid, acyclic: false, clients, hot, bulk, beyond: false }
    }
    /// Only operations that always work, to reach a state to be queried.
    pub fn build(mut self) -> Mix {
        self.valid = 100;
        self
    }
    pub fn acyclic(mut self) -> Mix {
        self.acyclic = true;
        self
    }
}

#[derive(Clone, Default)]
struct Client {
    nodes: Vec<N>,
    ports: Vec<P>,
    subports: Vec<Ep>,
}
fn remember<T: PartialEq>(v: &mut Vec<T>, x: T) {
    if !v.contains(&x) {
        if v.len() >= 6 {
            v.remove(0);
        }
        v.push(x);
    }
}

/// A call on a graph, that can be repeated on a replica.
#[derive(Clone, Debug)]
pub enum Call {
    AddNode(usize, usize),
    RemoveNode(N),
    LinkPorts(P, P),
    LinkOffsets(N, (usize, usize), N, (usize, usize), bool),
    UnlinkPort(P),
    LinkSubports(Ep, Ep),
    UnlinkSubport(Ep),
    SetNumPorts(N, usize, usize),
    SwapNodes(N, N),
    CompactNodes,
    CompactPorts,
    Reserve(usize, usize),
    Shrink,
    Clear,
    InsertGraph(PortGraph),
    InsertMulti(MultiPortGraph),
    CopyInParent(Vec<N>),
}
impl Call {
    /// Applies the call to a graph and prints everything it returned.
    pub fn apply<G: Gr>(&self, g: &mut G) -> String {
        let off = |o: (usize, usize)| PortOffset::<u16>::new(dir(o.0), o.1);
        let show = |m: std::collections::HashMap<NodeIndex, NodeIndex>| {
            format!("{:?}", m.into_iter().map(|(a, b)| (a.index(), b.index())).collect::<BTreeMap<_, _>>())
        };
        match self {
            Call::AddNode(a, b) => format!("{:?}", g.add_node(*a, *b)),
            Call::RemoveNode(x) => {
                g.remove_node(n(*x));
                String::new()
            }
            Call::LinkPorts(a, b) => format!("{:?}", g.link_ports(p(*a), p(*b))),
            Call::LinkOffsets(x, ox, y, oy, short) => {
                if *short && ox.0 == OUT && oy.0 == IN {
                    format!("{:?}", g.link_nodes(n(*x), ox.1, n(*y), oy.1))
                } else {
                    format!("{:?}", g.link_offsets(n(*x), off(*ox), n(*y), off(*oy)))
                }
            }
            Call::UnlinkPort(q) => format!("{:?}", g.unlink_port(p(*q))),
            Call::LinkSubports(a, b) => format!("{:?}", g.g_link_subports(*a, *b)),
            Call::UnlinkSubport(a) => format!("{:?}", g.g_unlink_subport(*a)),
            Call::SetNumPorts(x, a, b) => {
                let mut calls = vec![];
                g.set_num_ports(n(*x), *a, *b, |q, op| calls.push((q, op)));
                format!("{calls:?}")
            }
            Call::SwapNodes(a, b) => {
                g.swap_nodes(n(*a), n(*b));
                String::new()
            }
            Call::CompactNodes => {
                let mut calls = vec![];
                g.compact_nodes(|a, b| calls.push((a, b)));
                format!("{calls:?}")
            }
            Call::CompactPorts => {
                let mut calls = vec![];
                g.compact_ports(|a, b| calls.push((a, b)));
                format!("{calls:?}")
            }
            Call::Reserve(a, b) => {
                g.reserve(*a, *b);
                String::new()
            }
            Call::Shrink => {
                g.shrink_to_fit();
                String::new()
            }
            Call::Clear => {
                g.clear();
                String::new()
            }
            Call::InsertGraph(o) => g.insert_graph(o).map(show).map_err(|e| format!("{e:?}")).unwrap_or_else(|e| e),
            Call::CopyInParent(nodes) => {
                let r = Subgraph::with_nodes(&mut *g, nodes.iter().map(|x| n(*x))).copy_in_parent();
                r.map(show).unwrap_or_else(|e| format!("{e:?}"))
            }
            Call::InsertMulti(o) => g.insert_graph(o).map(show).map_err(|e| format!("{e:?}")).unwrap_or_else(|e| e),
        }
    }
}

/// Limits on the numbers of ports of a node.
pub struct Limits {
    pub each: usize,
    pub total: usize,
}
impl Limits {
    pub fn of<G: AnyGr>() -> Limits {
        Limits { each: PortOffset::<G::O>::max_offset().min(65534), total: 65535 }
    }
    /// Whether the numbers of ports are certainly too large.
    pub fn beyond(&self, a: usize, b: usize) -> bool {
        a > self.each + 1 || b > self.each + 1 || a + b > self.total
    }
    pub fn within(&self, a: usize, b: usize) -> bool {
        a <= self.each && b <= self.each && a + b <= self.total
    }
    /// Numbers of ports that a node cannot have.
    pub fn draw_beyond(&self, ctx: &mut Ctx) -> (usize, usize) {
        let m = self.each;
        let a = match ctx.draw(6) {
            0 => m + 2,
            1 => m + 2 + ctx.draw(300),
            2 => 65536 + ctx.draw(5),
            3 => 98304 + ctx.draw(2),
            4 => (self.total - self.total / 2).min(m),
            _ => m,
        };
        let b = match ctx.draw(4) {
            0 => ctx.draw(3),
            1 => a,
            2 => (self.total + 1).saturating_sub(a),
            _ => m + 2,
        };
        let (a, b) = if ctx.draw(2) == 0 { (a, b) } else { (b, a) };
        if self.beyond(a, b) {
            (a, b)
        } else {
            (m + 2, 1)
        }
    }
}

/// Calls a mutator on the graph itself or through a reference to it.
macro_rules! on {
    ($w:ident, $f:ident($($a:expr),*)) => {
        if $w.by_ref {
            through(&mut &mut $w.g).$f($($a),*)
        } else {
            $w.g.$f($($a),*)
        }
    };
}
fn through<'a, 'b, G: LinkMut>(g: &'a mut &'b mut G) -> &'a mut (impl LinkMut<PortOffsetBase = G::PortOffsetBase, LinkEndpoint = G::LinkEndpoint> + use<'b, G>) {
    g
}

/// The graph itself. Calls are only recorded with the default port offsets.
fn default_offsets<T: 'static, D: Clone + 'static>(g: &T) -> D {
    (g as &dyn std::any::Any).downcast_ref::<D>().expect("default port offsets").clone()
}

/// The system under simulation: a real graph, its model and its clients.
pub struct World<G: AnyGr> {
    pub g: G,
    pub m: Model,
    pub mix: Mix,
    pub events: Vec<Ev>,
    /// The calls made, when they are recorded.
    pub calls: Option<Vec<Call>>,
    clients: Vec<Client>,
    cur: usize,
    saved: Option<(Codec, Vec<u8>, Model)>,
    /// The current client holds the graph by reference.
    by_ref: bool,
    /// The last operation was rejected by the graph.
    pub rejected: bool,
    pub last: String,
    /// Nodes and ports that ever existed.
    pub stale_nodes: BTreeSet<N>,
    pub stale_ports: BTreeSet<P>,
}

impl<G: AnyGr> World<G> {
    pub fn new(ctx: &mut Ctx, mix: Mix) -> Self {
        let g = match ctx.draw(4) {
            0 | 1 => G::empty(),
            2 => {
                let (a, b) = (ctx.range(0, 40), ctx.range(0, 80));
                G::sized(a, b)
            }
            _ => G::default(),
        };
        World {
            g,
            m: Model::default(),
            clients: vec![Client::default(); mix.clients],
            mix,
            events: vec![],
            calls: None,
            cur: 0,
            saved: None,
            by_ref: false,
            rejected: false,
            last: String::new(),
            stale_nodes: BTreeSet::new(),
            stale_ports: BTreeSet::new(),
        }
    }
    /// A world whose graph is converted from a plain one with a past.
    pub fn converted(ctx: &mut Ctx, mix: Mix) -> Self {
        let plain = World::<PortGraph>::grown(ctx, mix.clone(), 20);
        let mut w = Self::new(ctx, mix);
        if let Some(g) = G::g_of_plain(plain.g.clone()) {
            ctx.op("conversion of a plain graph");
            ctx.log(|| "converted the plain graph".to_string());
            w.g = g;
            w.m = plain.m;
            w.stale_nodes = plain.stale_nodes;
            w.stale_ports = plain.stale_ports;
            w.clients = plain.clients;
        }
        w
    }
    /// A world after `steps` operations of a random mix.
    pub fn grown(ctx: &mut Ctx, mix: Mix, steps: usize) -> Self {
        let mut w = Self::new(ctx, mix);
        for _ in 0..steps {
            w.step(ctx);
        }
        w
    }
    pub fn forget_checkpoint(&mut self) {
        self.saved = None;
    }

    // --- choice of arguments
    pub fn live_node(&self, ctx: &mut Ctx) -> Option<N> {
        let k = self.m.e.nodes.len();
        if k == 0 {
            return None;
        }
        let i = ctx.draw(k);
        self.m.e.nodes.keys().nth(i).copied()
    }
    pub fn live_port(&self, ctx: &mut Ctx, d: Option<usize>) -> Option<P> {
        let ports: Vec<P> = self.m.e.ports.iter().filter(|(_, v)| d.is_none_or(|d| v.1 == d)).map(|(q, _)| *q).take(4000).collect();
        let k = if self.mix.hot { ports.len().min(3) } else { ports.len() };
        if k == 0 {
            return None;
        }
        Some(ports[ctx.draw(k)])
    }
    pub fn any_node(&mut self, ctx: &mut Ctx) -> N {
        if ctx.draw(100) < self.mix.valid {
            if let Some(x) = self.live_node(ctx) {
                remember(&mut self.clients[self.cur].nodes, x);
                return x;
            }
        }
        ctx.fault("stale or foreign node handle");
        match ctx.draw(4) {
            0 | 1 if !self.clients[self.cur].nodes.is_empty() => *ctx.pick(&self.clients[self.cur].nodes).unwrap(),
            2 => {
                let hidden = self.g.hidden_nodes();
                ctx.pick(&hidden).copied().unwrap_or(3)
            }
            _ => ctx.draw(self.m.e.bound_nodes() + 3),
        }
    }
    pub fn any_port(&mut self, ctx: &mut Ctx, d: Option<usize>) -> P {
        if ctx.draw(100) < self.mix.valid {
            if let Some(x) = self.live_port(ctx, d) {
                remember(&mut self.clients[self.cur].ports, x);
                return x;
            }
        }
        ctx.fault("stale or foreign port handle");
        match ctx.draw(4) {
            0 | 1 if !self.clients[self.cur].ports.is_empty() => *ctx.pick(&self.clients[self.cur].ports).unwrap(),
            2 => self.live_port(ctx, None).unwrap_or(0),
            _ => ctx.draw(self.m.e.bound_ports() + 5),
        }
    }
    pub fn free_port(&self, ctx: &mut Ctx, d: usize) -> Option<P> {
        let ports: Vec<P> = self
            .m
            .e
            .ports
            .iter()
            .filter(|(q, v)| v.1 == d && self.m.e.links.range((**q, 0)..(**q + 1, 0)).next().is_none())
            .map(|(q, _)| *q)
            .take(4000)
            .collect();
        ctx.pick(&ports).copied()
    }
    pub fn closes_cycle(&self, from: N, to: N) -> bool {
        from == to || self.m.e.reachable(&[to]).contains(&from)
    }

    fn record(&mut self, f: impl FnOnce() -> Call) {
        if let Some(v) = &mut self.calls {
            v.push(f());
        }
    }

    // --- operations
    pub fn add_node(&mut self, ctx: &mut Ctx, ins: usize, outs: usize) -> N {
        self.last = format!("add_node({ins}, {outs})");
        self.record(|| Call::AddNode(ins, outs));
        let got = on!(self, add_node(ins, outs));
        let x = got.index();
        self.last = format!("add_node({ins}, {outs}) = {x}");
        self.learn_node(x, ins, outs);
        remember(&mut self.clients[self.cur].nodes, x);
        if let Some(q) = self.m.e.nodes[&x].iter().flatten().next().copied() {
            remember(&mut self.clients[self.cur].ports, q);
        }
        let _ = ctx;
        x
    }
    /// Asks for a node with too many ports.
    pub fn refuse_node(&mut self, ins: usize, outs: usize) {
        self.last = format!("add_node({ins}, {outs})");
        let refused = panics(|| {
            on!(self, add_node(ins, outs));
        });
        check!(refused, "port limits", "{}: accepted, but offsets or counters cannot represent so many ports", self.last);
        self.rejected = true;
    }
    /// Asks for too many ports of a node.
    pub fn refuse_ports(&mut self, x: N, ins: usize, outs: usize) {
        self.last = format!("set_num_ports({x}, {ins}, {outs})");
        let mut calls = 0;
        let refused = panics(|| {
            on!(self, set_num_ports(n(x), ins, outs, |_, _| calls += 1));
        });
        check!(refused || !self.m.e.nodes.contains_key(&x), "port limits", "{}: accepted, but offsets or counters cannot represent so many ports", self.last);
        check_eq!(calls, 0, "port limits", "{}: refused, but ports were reported as moved", self.last);
        self.rejected = true;
    }
    /// Adds to the model a node that the graph claims to have created.
    pub fn learn_node(&mut self, x: N, ins: usize, outs: usize) {
        check!(!self.m.e.nodes.contains_key(&x), "add_node", "{}: the index of node {x} is in use", self.last);
        let pi = px(self.g.ports(n(x), Direction::Incoming));
        let po = px(self.g.ports(n(x), Direction::Outgoing));
        check_eq!((pi.len(), po.len()), (ins, outs), "add_node", "{}: number of ports of the new node {x}", self.last);
        let mut seen = BTreeSet::new();
        for q in pi.iter().chain(&po) {
            check!(seen.insert(*q) && !self.m.e.ports.contains_key(q), "add_node", "{}: the index of port {q} is in use", self.last);
        }
        self.m.add_node(x, pi, po);
        self.stale_nodes.insert(x);
        self.stale_ports.extend(seen.into_iter().take(50));
    }
    pub fn remove_node(&mut self, x: N) {
        self.last = format!("remove_node({x})");
        self.record(|| Call::RemoveNode(x));
        let ports: Vec<P> = self.m.e.nodes.get(&x).into_iter().flatten().flatten().copied().collect();
        on!(self, remove_node(n(x)));
        if self.m.e.nodes.contains_key(&x) {
            self.events.push(Ev::NodeRemoved(x, ports));
        } else {
            self.rejected = true;
        }
        self.m.remove_node(x);
    }
    fn check_link_error(&self, a: P, b: P, err: &LinkError<G::O>, occupied: &[P]) {
        let e = &self.m.e;
        let ok = match err {
            LinkError::UnknownPort { port } => {
                let q = port.index();
                (q == a || q == b) && !e.ports.contains_key(&q)
            }
            LinkError::AlreadyLinked { port } => {
                let q = port.index();
                (q == a || q == b) && occupied.contains(&q)
            }
            LinkError::IncompatibleDirections { port_a, port_b, dir } => {
                let (x, y) = (port_a.index(), port_b.index());
                ((x, y) == (a, b) || (x, y) == (b, a))
                    && e.ports.contains_key(&a)
                    && e.ports.contains_key(&b)
                    && e.dir_of(a) == *dir as usize
                    && e.dir_of(b) == *dir as usize
            }
            LinkError::UnknownOffset { .. } => false,
        };
        check!(ok, "link error", "{}: the error {err:?} does not describe a defect of the arguments", self.last);
    }
    /// Whether linking two ports must succeed.
    pub fn linkable(&self, a: P, b: P) -> bool {
        let e = &self.m.e;
        e.ports.contains_key(&a)
            && e.ports.contains_key(&b)
            && e.dir_of(a) != e.dir_of(b)
            && (G::MULTI || (e.port_links(a).is_empty() && e.port_links(b).is_empty()))
    }
    fn linked(&mut self, a: P, b: P, res: (G::E, G::E)) -> (Ep, Ep) {
        let (mut x, mut y) = (res.0.ep(), res.1.ep());
        if x.0 == b && y.0 == a {
            std::mem::swap(&mut x, &mut y);
        }
        check!(x.0 == a && y.0 == b, "link result", "{}: returned {res:?}", self.last);
        check!(
            !self.m.e.links.contains_key(&x) && !self.m.e.links.contains_key(&y),
            "link result",
            "{}: returned {res:?}, but a subport was already linked",
            self.last
        );
        self.m.link(x, y);
        remember(&mut self.clients[self.cur].subports, x);
        remember(&mut self.clients[self.cur].subports, y);
        (x, y)
    }
    pub fn link_ports(&mut self, a: P, b: P) -> Option<(Ep, Ep)> {
        self.last = format!("link_ports({a}, {b})");
        self.record(|| Call::LinkPorts(a, b));
        let must = self.linkable(a, b);
        match on!(self, link_ports(p(a), p(b))) {
            Ok(r) => {
                check!(must, "link accepted", "{}: accepted, but the arguments are invalid", self.last);
                Some(self.linked(a, b, r))
            }
            Err(err) => {
                check!(!must, "link rejected", "{}: rejected with {err:?}, but the arguments are valid", self.last);
                let occ: Vec<P> = if G::MULTI { vec![] } else { [a, b].into_iter().filter(|q| !self.m.e.port_links(*q).is_empty()).collect() };
                self.check_link_error(a, b, &err, &occ);
                self.rejected = true;
                None
            }
        }
    }
    pub fn link_offsets(&mut self, x: N, ox: (usize, usize), y: N, oy: (usize, usize), short: bool) -> Option<(Ep, Ep)> {
        self.last = format!("link_offsets({x}, {ox:?}, {y}, {oy:?})");
        self.record(|| Call::LinkOffsets(x, ox, y, oy, short));
        let e = &self.m.e;
        let port = |z: N, o: (usize, usize)| e.nodes.get(&z).and_then(|ps| ps[o.0].get(o.1).copied());
        let (a, b) = (port(x, ox), port(y, oy));
        let must = a.is_some_and(|a| b.is_some_and(|b| self.linkable(a, b)));
        let o = |o: (usize, usize)| PortOffset::<G::O>::new(dir(o.0), o.1);
        let hidden = G::MULTI && { [x, y].iter().any(|z| !self.m.e.nodes.contains_key(z)) };
        let r = if short && ox.0 == OUT && oy.0 == IN {
            on!(self, link_nodes(n(x), ox.1, n(y), oy.1))
        } else {
            on!(self, link_offsets(n(x), o(ox), n(y), o(oy)))
        };
        match r {
            Ok(r) => {
                check!(must, "link accepted", "{}: accepted, but the arguments are invalid", self.last);
                Some(self.linked(a.unwrap(), b.unwrap(), r))
            }
            Err(err) => {
                check!(!must, "link rejected", "{}: rejected with {err:?}, but the arguments are valid", self.last);
                self.rejected = true;
                match (a, b, &err) {
                    (_, _, LinkError::UnknownOffset { node, offset }) => {
                        let k = (node.index(), (offset.direction() as usize, offset.index()));
                        let bad = (k == (x, ox) && a.is_none()) || (k == (y, oy) && b.is_none());
                        check!(bad, "link error", "{}: the error {err:?} does not describe a defect of the arguments", self.last);
                    }
                    (Some(a), Some(b), err) => {
                        let occ: Vec<P> = if G::MULTI { vec![] } else { [a, b].into_iter().filter(|q| !self.m.e.port_links(*q).is_empty()).collect() };
                        self.check_link_error(a, b, err, &occ);
                    }
                    (_, _, err) => check!(hidden, "link error", "{}: the error {err:?} does not describe a defect of the arguments", self.last),
                }
                None
            }
        }
    }
    pub fn unlink_port(&mut self, q: P) {
        self.last = format!("unlink_port({q})");
        self.record(|| Call::UnlinkPort(q));
        let links = if self.m.e.ports.contains_key(&q) { self.m.e.port_links(q) } else { vec![] };
        let got = on!(self, unlink_port(p(q))).map(|x| x.ep());
        match got {
            None => check!(links.is_empty(), "unlink_port", "{}: none, expected one of {links:?}", self.last),
            Some(x) => check!(links.iter().any(|(_, b)| *b == x), "unlink_port", "{}: {x:?}, expected one of {links:?}", self.last),
        }
        self.rejected = !self.m.e.ports.contains_key(&q);
        if !links.is_empty() {
            self.m.unlink_port(q);
        }
    }
    /// Whether a subport is listed by the graph.
    fn subport_exists(&self, s: Ep) -> bool {
        match self.m.e.ports.get(&s.0) {
            None => false,
            Some(&(x, d, _)) => self.g.g_subports(x, d).contains(&s),
        }
    }
    pub fn link_subports(&mut self, a: Ep, b: Ep) {
        self.last = format!("link_subports({a:?}, {b:?})");
        self.record(|| Call::LinkSubports(a, b));
        let (ea, eb) = (self.subport_exists(a), self.subport_exists(b));
        let e = &self.m.e;
        let free = !e.links.contains_key(&a) && !e.links.contains_key(&b);
        let must = ea && eb && free && e.dir_of(a.0) != e.dir_of(b.0);
        match self.g.g_link_subports(a, b) {
            Ok(()) => {
                check!(must, "link accepted", "{}: accepted, but the arguments are invalid", self.last);
                self.m.link(a, b);
            }
            Err(err) => {
                check!(!must, "link rejected", "{}: rejected with {err:?}, but the arguments are valid", self.last);
                self.rejected = true;
                if let LinkError::UnknownPort { port } = &err {
                    let q = port.index();
                    check!((q == a.0 && !ea) || (q == b.0 && !eb), "link error", "{}: wrong error {err:?}", self.last);
                } else {
                    let occ: Vec<P> = [a, b].into_iter().filter(|s| self.m.e.links.contains_key(s)).map(|s| s.0).collect();
                    self.check_link_error(a.0, b.0, &err, &occ);
                }
            }
        }
    }
    pub fn unlink_subport(&mut self, a: Ep) {
        self.last = format!("unlink_subport({a:?})");
        self.record(|| Call::UnlinkSubport(a));
        let want = self.m.e.links.get(&a).copied();
        let got = self.g.g_unlink_subport(a);
        check_eq!(got, want, "unlink_subport", "{}", self.last);
        self.rejected = want.is_none();
        self.m.unlink(a);
    }
    pub fn set_num_ports(&mut self, x: N, ins: usize, outs: usize) {
        self.last = format!("set_num_ports({x}, {ins}, {outs})");
        self.record(|| Call::SetNumPorts(x, ins, outs));
        let mut calls: Vec<(P, PortOperation)> = vec![];
        on!(self, set_num_ports(n(x), ins, outs, |q, op| calls.push((q.index(), op))));
        let Some(old) = self.m.e.nodes.get(&x).cloned() else {
            check!(calls.is_empty(), "set_num_ports callback", "{}: the node does not exist, but got {calls:?}", self.last);
            self.rejected = true;
            return;
        };
        // Index now -> index before the call, for the ports of the node.
        let mut now: BTreeMap<P, P> = old.iter().flatten().map(|q| (*q, *q)).collect();
        let mut removed: BTreeMap<P, Option<P>> = BTreeMap::new();
        let keep = [ins, outs];
        for (q, op) in &calls {
            let Some(orig) = now.remove(q) else {
                fail!("set_num_ports callback", "{}: reported {op:?} for {q}, which is not a port of the node at that moment; calls: {calls:?}", self.last);
            };
            let moved = match op {
                PortOperation::Moved { new_index } => Some(*new_index),
                PortOperation::Removed { .. } => None,
            };
            check_eq!(op.new_index(), moved, "set_num_ports callback", "{}: new_index of {op:?}", self.last);
            match op {
                PortOperation::Moved { new_index } => {
                    let new = new_index.index();
                    check!(
                        new == *q || !(now.contains_key(&new) || (self.m.e.ports.contains_key(&new) && self.m.e.node_of(new) != x)),
                        "set_num_ports callback",
                        "{}: port {q} moved over port {new}; calls: {calls:?}",
                        self.last
                    );
                    now.insert(new, orig);
                    self.events.push(Ev::PortMoved(*q, new));
                }
                PortOperation::Removed { old_link } => {
                    let (_, d, off) = self.m.e.ports[&orig];
                    check!(off >= keep[d], "set_num_ports callback", "{}: port {orig} reported as removed", self.last);
                    // The linked port, under its index at the time of the call.
                    let links: Vec<P> = self.m.e.port_links(orig).into_iter().map(|(_, b)| b.0).collect();
                    let at = |b: P| now.iter().find(|(_, o)| **o == b).map(|(i, _)| *i);
                    let mut ok: Vec<Option<P>> = links.iter().map(|b| if self.m.e.node_of(*b) == x { at(*b).or(Some(*b)) } else { Some(*b) }).collect();
                    // The other end may already have been disconnected in this call.
                    if links.iter().all(|b| removed.contains_key(b) || *b == orig) {
                        ok.push(None);
                    }
                    let got = old_link.map(|l| l.index());
                    check!(ok.contains(&got), "set_num_ports callback", "{}: removed port {orig} had links to {links:?}, reported {got:?}", self.last);
                    removed.insert(orig, got);
                    self.events.push(Ev::PortRemoved(*q, got));
                }
            }
        }
        for d in [IN, OUT] {
            for (k, q) in old[d].iter().enumerate() {
                check!(k < keep[d] || removed.contains_key(q), "set_num_ports callback", "{}: removed port {q} was not reported", self.last);
            }
        }
        for q in removed.keys() {
            self.m.remove_port(*q);
        }
        let map: BTreeMap<P, P> = now.iter().map(|(new, orig)| (*orig, *new)).collect();
        let mut lists: [Vec<P>; 2] = [old[IN].iter().take(ins).copied().collect(), old[OUT].iter().take(outs).copied().collect()];
        self.m.e.nodes.insert(x, lists.clone());
        self.m.rename_ports(&map);
        for d in [IN, OUT] {
            lists[d].iter_mut().for_each(|q| *q = map[q]);
            let got = px(self.g.ports(n(x), dir(d)));
            check_eq!(got.len(), keep[d], "set_num_ports", "{}: number of ports in direction {d}", self.last);
            check_eq!(got[..lists[d].len()], lists[d][..], "set_num_ports", "{}: kept ports in direction {d}", self.last);
            for (k, q) in got.iter().enumerate().skip(lists[d].len()) {
                check!(!self.m.e.ports.contains_key(q), "set_num_ports", "{}: new port {q} is in use", self.last);
                self.m.next_uid += 1;
                self.m.puid.insert(*q, self.m.next_uid);
                self.m.e.ports.insert(*q, (x, d, k));
                if self.stale_ports.len() < 200 {
                    self.stale_ports.insert(*q);
                }
            }
            self.m.e.nodes.get_mut(&x).unwrap()[d] = got;
        }
    }
    pub fn swap_nodes(&mut self, a: N, b: N) {
        self.last = format!("swap_nodes({a}, {b})");
        self.record(|| Call::SwapNodes(a, b));
        on!(self, swap_nodes(n(a), n(b)));
        self.events.push(Ev::NodesSwapped(a, b));
        self.m.rename_nodes(&[(a, b), (b, a)].into());
    }
    pub fn compact_nodes(&mut self) {
        self.last = "compact_nodes".into();
        self.record(|| Call::CompactNodes);
        let hidden: BTreeSet<N> = self.g.hidden_nodes().into_iter().collect();
        let mut calls = vec![];
        on!(self, compact_nodes(|a, b| calls.push((a.index(), b.index()))));
        let mut now: BTreeMap<N, N> = self.m.e.nodes.keys().map(|x| (*x, *x)).chain(hidden.iter().map(|x| (*x, *x))).collect();
        self.apply_moves(&calls, &mut now, "compact_nodes callback", true);
        let map = now.iter().filter(|(_, o)| !hidden.contains(o)).map(|(i, o)| (*o, *i)).collect();
        self.m.rename_nodes(&map);
    }
    pub fn compact_ports(&mut self) {
        self.last = "compact_ports".into();
        self.record(|| Call::CompactPorts);
        let mut calls = vec![];
        let hidden: BTreeSet<P> = if G::MULTI { self.g.hidden_ports() } else { BTreeSet::new() };
        on!(self, compact_ports(|a, b| calls.push((a.index(), b.index()))));
        let mut now: BTreeMap<P, P> = self.m.e.ports.keys().map(|x| (*x, *x)).chain(hidden.iter().map(|x| (*x, *x))).collect();
        self.apply_moves(&calls, &mut now, "compact_ports callback", false);
        let map = now.iter().filter(|(_, o)| !hidden.contains(o)).map(|(i, o)| (*o, *i)).collect();
        self.m.rename_ports(&map);
    }
    fn apply_moves(&mut self, calls: &[(usize, usize)], now: &mut BTreeMap<usize, usize>, class: &str, nodes: bool) {
        for &(a, b) in calls {
            let Some(o) = now.remove(&a) else {
                fail!(class, "{}: reported that {a} moved to {b}, but nothing is at {a}; calls: {calls:?}", self.last);
            };
            check!(!now.contains_key(&b), class, "{}: {a} moved over {b}; calls: {calls:?}", self.last);
            now.insert(b, o);
            self.events.push(if nodes { Ev::NodeMoved(a, b) } else { Ev::PortMoved(a, b) });
        }
    }
    pub fn clear(&mut self) {
        self.last = "clear".into();
        self.record(|| Call::Clear);
        on!(self, clear());
        self.m.clear();
        self.events.push(Ev::Cleared);
    }
    pub fn checkpoint(&mut self, c: Codec) {
        self.last = format!("checkpoint({c:?})");
        self.saved = Some((c, encode(c, &self.g), self.m.clone()));
        self.events.push(Ev::Checkpoint);
    }
    /// Loses the state in memory and comes back from the last checkpoint.
    pub fn crash(&mut self, ctx: &mut Ctx) {
        let Some((c, bytes, model)) = self.saved.clone() else { return };
        self.last = format!("crash, restart from the {c:?} checkpoint");
        ctx.fault("crash and restart from checkpoint");
        self.g = decode(c, &bytes);
        let next = self.m.next_uid;
        self.m = model;
        self.m.next_uid = next;
        self.events.push(Ev::Restarted);
    }
    /// Learns the links of nodes that were created by a copying operation.
    /// `want` lists all the links between ports that involve the new nodes.
    pub fn learn_links(&mut self, want: &[(P, P)], new: &BTreeSet<P>) {
        let mut by_port: BTreeMap<P, Vec<P>> = new.iter().map(|q| (*q, vec![])).collect();
        for (a, b) in want {
            for (x, y) in [(a, b), (b, a)] {
                if let Some(v) = by_port.get_mut(x) {
                    v.push(*y);
                }
            }
        }
        for (a, mut ts) in by_port {
            ts.sort();
            let got: Vec<(Ep, Ep)> = self.g.port_links(p(a)).map(|(x, y)| (x.ep(), y.ep())).collect();
            let gp = sorted(got.iter().map(|(_, y)| y.0));
            check_eq!(gp, ts, "copied links", "{}: links of the new port {a}", self.last);
            for (x, y) in got {
                check!(x.0 == a, "copied links", "{}: link {:?} of port {a}", self.last, (x, y));
                if self.m.e.links.get(&x) != Some(&y) {
                    self.m.link(x, y);
                }
            }
        }
    }
    /// Copies some nodes within the graph.
    pub fn copy_in_parent(&mut self, nodes: &[N]) -> Option<BTreeMap<N, N>> {
        self.last = format!("copy_in_parent({nodes:?})");
        self.record(|| Call::CopyInParent(nodes.to_vec()));
        let set: BTreeSet<N> = nodes.iter().copied().collect();
        let inner = self.m.e.restrict(|x| set.contains(&x), |_, _| true);
        let mut links: Vec<(P, P)> = inner.edges().iter().map(|(a, b)| (a.0, b.0)).collect();
        let mut keep = BTreeMap::new();
        let mut crossing = vec![];
        for q in inner.ports.keys() {
            for (a, b) in self.m.e.port_links(*q) {
                if !inner.ports.contains_key(&b.0) {
                    crossing.push((a.0, b.0));
                    links.push((a.0, b.0));
                    keep.insert(b.0, b.0);
                }
            }
        }
        let r = Subgraph::with_nodes(&mut self.g, nodes.iter().map(|x| n(*x))).copy_in_parent();
        match r {
            Ok(map) => {
                check!(G::MULTI || crossing.is_empty(), "copy accepted", "{}: accepted, although the links {crossing:?} cannot be doubled", self.last);
                let map: BTreeMap<N, N> = map.into_iter().map(|(a, b)| (a.index(), b.index())).collect();
                self.copied(&map, &inner, &links, &keep);
                Some(map)
            }
            Err(CopySubgraphError::CantCopyBoundary { internal, external }) => {
                check!(!G::MULTI && !crossing.is_empty(), "copy rejected", "{}: rejected, although every link can be copied", self.last);
                let l = (internal.index(), external.index());
                check!(crossing.contains(&l), "copy error", "{}: the error blames {l:?}, which is not a link across the boundary", self.last);
                self.rejected = true;
                None
            }
            Err(e) => fail!("copy error", "{}: {e:?}", self.last),
        }
    }
    pub fn insert_graph<V>(&mut self, ctx: &mut Ctx, src: &V, e: &Expected)
    where
        V: LinkView<PortOffsetBase = G::O>,
    {
        self.last = format!("insert_graph({} nodes, {} links)", e.nodes.len(), e.links.len() / 2);
        let map = match on!(self, insert_graph(src)) {
            Ok(m) => m,
            Err(err) => fail!("insert_graph", "{}: {err:?}", self.last),
        };
        let map: BTreeMap<N, N> = map.into_iter().map(|(a, b)| (a.index(), b.index())).collect();
        self.copied(&map, e, &e.edges().iter().map(|(a, b)| (a.0, b.0)).collect::<Vec<_>>(), &BTreeMap::new());
        let _ = ctx;
    }
    /// Updates the model after a copy of the nodes of `e` under `map`, with the
    /// given links. Ports that are not copied are translated by `keep`.
    pub fn copied(&mut self, map: &BTreeMap<N, N>, e: &Expected, links: &[(P, P)], keep: &BTreeMap<P, P>) {
        check_eq!(map.keys().copied().collect::<Vec<_>>(), e.nodes.keys().copied().collect::<Vec<_>>(), "copied nodes", "{}: keys of the returned map", self.last);
        for (old, new) in map {
            let ports = &e.nodes[old];
            self.learn_node(*new, ports[IN].len(), ports[OUT].len());
        }
        let tr = |q: P| -> P {
            match keep.get(&q) {
                Some(k) => *k,
                None => {
                    let (x, d, off) = e.ports[&q];
                    self.m.e.nodes[&map[&x]][d][off]
                }
            }
        };
        let want: Vec<(P, P)> = links.iter().map(|(a, b)| (tr(*a), tr(*b))).collect();
        let new: BTreeSet<P> = map.values().flat_map(|x| self.m.e.nodes[x].iter().flatten().copied()).collect();
        self.learn_links(&want, &new);
    }

    /// Builds a graph of `k` nodes at once, of some regular shape with holes.
    pub fn populate(&mut self, ctx: &mut Ctx, k: usize) {
        ctx.op("larger graph");
        ctx.probe("larger graph");
        ctx.shorten(8);
        self.mix.max_nodes = self.mix.max_nodes.max(k + 10);
        let shape = ctx.draw(6);
        let mut r = Rng::new(ctx.draw(1 << 20) as u64);
        let mut below = |n: usize| (r.next() >> 33) as usize % n;
        let holes = [0, 5, 25][below(3)];
        let mut xs: Vec<N> = vec![];
        // Many ports, or many links at few ports.
        let ports = if G::MULTI && below(2) == 0 { 2 } else { k };
        let hub = (shape == 2).then(|| self.add_node(ctx, ports, ports));
        for i in 0..k {
            let (a, b) = match shape {
                4 => (1, 1),
                _ => (1 + below(3), 1 + below(3)),
            };
            xs.push(self.add_node(ctx, a, b));
            // Free slots in between, to be filled by later nodes.
            if i % 3 == 2 && below(100) < holes {
                let x = xs.swap_remove(below(xs.len()));
                self.remove_node(x);
            }
        }
        // Indices and positions should not agree.
        if shape != 4 {
            for i in (1..xs.len()).rev() {
                xs.swap(i, below(i + 1));
            }
        }
        let len = xs.len();
        let mut wanted: Vec<(N, N)> = match shape {
            // Any.
            0 => (0..2 * len).map(|_| (xs[below(len)], xs[below(len)])).collect(),
            // A long path with shortcuts.
            1 | 4 => (1..len).map(|i| (xs[i - 1], xs[i])).chain((0..len / 4).map(|_| (xs[below(len)], xs[below(len)]))).collect(),
            // A hub with many neighbours.
            2 => xs.iter().map(|x| if below(2) == 0 { (hub.unwrap(), *x) } else { (*x, hub.unwrap()) }).collect(),
            // A grid.
            3 => (0..len).flat_map(|i| [i + 1, i + 7].map(|j| (i, j))).filter(|(_, j)| *j < len).map(|(i, j)| (xs[i], xs[j])).collect(),
            // Layers.
            _ => (5..len).flat_map(|i| [0, 1].map(|_| i)).map(|i| (xs[i - i % 5 - 1 - below(5)], xs[i])).collect(),
        };
        if self.mix.acyclic && matches!(shape, 0 | 1 | 4) {
            let at: BTreeMap<N, usize> = xs.iter().enumerate().map(|(i, x)| (*x, i)).collect();
            wanted = wanted.into_iter().filter(|(a, b)| a != b).map(|(a, b)| if at[&a] < at[&b] { (a, b) } else { (b, a) }).collect();
        }
        for (x, y) in wanted {
            let mut pick = |w: &Self, x: N, d: usize| -> Option<P> {
                let ps: Vec<P> = w.m.e.nodes[&x][d].iter().copied().filter(|q| G::MULTI || w.m.e.port_links(*q).is_empty()).collect();
                (!ps.is_empty()).then(|| ps[below(ps.len())])
            };
            if let (Some(a), Some(b)) = (pick(self, x, OUT), pick(self, y, IN)) {
                self.link_ports(a, b);
            }
        }
        for x in xs {
            if below(100) < holes {
                self.remove_node(x);
            }
        }
        self.last = format!("a graph of {k} nodes, shape {shape}, holes {holes}%");
        let last = &self.last;
        ctx.log(|| last.clone());
        ctx.state(fingerprint(&self.m.e));
    }

    /// One operation by one client.
    pub fn step(&mut self, ctx: &mut Ctx) {
        let k = ctx.weighted(&self.mix.w.clone());
        self.op(ctx, k);
    }
    pub fn op(&mut self, ctx: &mut Ctx, k: usize) {
        self.rejected = false;
        self.last.clear();
        if let Some(k) = self.mix.bulk.take() {
            return self.populate(ctx, k);
        }
        self.cur = ctx.draw(self.clients.len());
        self.by_ref = ctx.chance(25);
        let mut k = k;
        if self.m.e.nodes.len() >= self.mix.max_nodes && matches!(k, 0 | 17 | 18) {
            k = 1;
        }
        if self.m.e.nodes.is_empty() && k != 16 {
            k = 0;
        }
        if !G::MULTI && self.mix.valid == 100 && matches!(k, 5) {
            k = 2;
        }
        ctx.op(OPS[k]);
        let mp = self.mix.max_ports;
        match k {
            0 | 7 if self.mix.beyond && ctx.chance(12) => {
                ctx.fault("more ports than a node can have");
                let (i, o) = Limits::of::<G>().draw_beyond(ctx);
                if k == 0 {
                    self.refuse_node(i, o);
                } else {
                    let x = self.any_node(ctx);
                    self.refuse_ports(x, i, o);
                }
            }
            0 => {
                let (i, o) = (ctx.draw(mp + 1), ctx.draw(mp + 1));
                let (i, o) = match ctx.draw(8) {
                    6 => (0, o),
                    7 => (i, 0),
                    _ => (i, o),
                };
                self.add_node(ctx, i, o);
            }
            1 => {
                let x = self.any_node(ctx);
                self.remove_node(x);
            }
            2 => {
                let prefer_free = !G::MULTI && ctx.chance(85);
                let (a, b) = if prefer_free {
                    match (self.free_port(ctx, OUT), self.free_port(ctx, IN)) {
                        (Some(a), Some(b)) => (a, b),
                        _ => (self.any_port(ctx, Some(OUT)), self.any_port(ctx, Some(IN))),
                    }
                } else {
                    let same = ctx.chance(100 - self.mix.valid);
                    (self.any_port(ctx, Some(OUT)), self.any_port(ctx, Some(if same { OUT } else { IN })))
                };
                let (a, b) = if ctx.chance(20) { (b, a) } else { (a, b) };
                if self.mix.acyclic || self.mix.valid == 100 {
                    if !self.linkable(a, b) {
                        return;
                    }
                    let e = &self.m.e;
                    let (o, i) = if e.dir_of(a) == OUT { (a, b) } else { (b, a) };
                    if self.mix.acyclic && self.closes_cycle(e.node_of(o), e.node_of(i)) {
                        // Try the other orientation of the same nodes.
                        let (no, ni) = (e.node_of(o), e.node_of(i));
                        let a2 = e.nodes[&ni][OUT].first().copied();
                        let b2 = e.nodes[&no][IN].first().copied();
                        if let (Some(a2), Some(b2)) = (a2, b2) {
                            if self.linkable(a2, b2) && !self.closes_cycle(ni, no) {
                                self.link_ports(a2, b2);
                            }
                        }
                        return;
                    }
                }
                self.link_ports(a, b);
            }
            3 => {
                let (x, y) = (self.any_node(ctx), self.any_node(ctx));
                let bad = ctx.chance(100 - self.mix.valid);
                let (dx, dy) = if bad { (ctx.draw(2), ctx.draw(2)) } else { (OUT, IN) };
                let off = |w: &Self, ctx: &mut Ctx, z: N, d: usize| {
                    let len = w.m.e.nodes.get(&z).map_or(1, |v| v[d].len());
                    ctx.draw((len + bad as usize).max(1))
                };
                let (ox, oy) = (off(self, ctx, x, dx), off(self, ctx, y, dy));
                if self.mix.acyclic || self.mix.valid == 100 {
                    let port = |z: N, d: usize, o: usize| self.m.e.nodes[&z][d].get(o).copied();
                    let (Some(a), Some(b)) = (port(x, dx, ox), port(y, dy, oy)) else { return };
                    if !self.linkable(a, b) || (self.mix.acyclic && self.closes_cycle(x, y)) {
                        return;
                    }
                }
                let swap = ctx.chance(20);
                let short = ctx.chance(50);
                if swap {
                    self.link_offsets(y, (dy, oy), x, (dx, ox), short);
                } else {
                    self.link_offsets(x, (dx, ox), y, (dy, oy), short);
                }
            }
            4 => {
                let q = self.any_port(ctx, None);
                self.unlink_port(q);
            }
            5 | 6 => {
                let sub = |w: &mut Self, ctx: &mut Ctx, d: Option<usize>| -> Ep {
                    let bad = ctx.chance(100 - w.mix.valid);
                    if bad {
                        match ctx.draw(3) {
                            0 if !w.clients[w.cur].subports.is_empty() => return *ctx.pick(&w.clients[w.cur].subports).unwrap(),
                            1 => {
                                let q = w.any_port(ctx, d);
                                return (q, if G::MULTI { ctx.draw(5) } else { 0 });
                            }
                            _ => return (ctx.draw(w.m.e.bound_ports() + 3), if G::MULTI { ctx.draw(3) } else { 0 }),
                        }
                    }
                    let q = w.live_port(ctx, d).unwrap_or(0);
                    match w.m.e.ports.get(&q).copied() {
                        None => (q, 0),
                        Some((x, d, _)) => {
                            let subs: Vec<Ep> = w.g.g_subports(x, d).into_iter().filter(|s| s.0 == q).collect();
                            ctx.pick(&subs).copied().unwrap_or((q, 0))
                        }
                    }
                };
                if k == 6 {
                    let s = sub(self, ctx, None);
                    self.unlink_subport(s);
                } else {
                    let a = sub(self, ctx, Some(OUT));
                    let b = sub(self, ctx, Some(IN));
                    let (a, b) = if ctx.chance(20) { (b, a) } else { (a, b) };
                    if self.mix.acyclic || self.mix.valid == 100 {
                        let e = &self.m.e;
                        if !(e.ports.contains_key(&a.0) && e.ports.contains_key(&b.0)) || e.dir_of(a.0) == e.dir_of(b.0) {
                            return;
                        }
                        let (o, i) = if e.dir_of(a.0) == OUT { (a, b) } else { (b, a) };
                        if self.mix.acyclic && self.closes_cycle(e.node_of(o.0), e.node_of(i.0)) {
                            return;
                        }
                        if e.links.contains_key(&a) || e.links.contains_key(&b) {
                            return;
                        }
                    }
                    self.link_subports(a, b);
                }
            }
            7 => {
                let x = self.any_node(ctx);
                let (ci, co) = self.m.e.nodes.get(&x).map_or((1, 1), |v| (v[IN].len(), v[OUT].len()));
                let new = |ctx: &mut Ctx, c: usize| match ctx.draw(6) {
                    0 => c + 1,
                    1 => c.saturating_sub(1),
                    2 => c,
                    3 => 0,
                    _ => ctx.draw(mp * 2 + 1),
                };
                let (i, o) = (new(ctx, ci), new(ctx, co));
                self.set_num_ports(x, i, o);
            }
            8 => {
                let s = self.g.slots();
                if s > 0 {
                    let (a, b) = (ctx.draw(s), ctx.draw(s));
                    // Hidden nodes are not the client's to swap, unless it errs.
                    self.swap_nodes(a, b);
                }
            }
            9 => self.compact_nodes(),
            10 => self.compact_ports(),
            11 => {
                let (a, b) = (ctx.draw(30), ctx.draw(60));
                self.last = format!("reserve({a}, {b})");
                self.record(|| Call::Reserve(a, b));
                on!(self, reserve(a, b));
                let (cn, cp) = (self.g.node_capacity(), self.g.port_capacity());
                check!(
                    cn >= self.m.e.nodes.len() + a && cp >= self.m.e.ports.len() + b,
                    "reserve",
                    "{}: now there is room for {cn} nodes and {cp} ports in all, with {} and {} of them in use",
                    self.last,
                    self.m.e.nodes.len(),
                    self.m.e.ports.len()
                );
            }
            12 => {
                self.last = "shrink_to_fit".into();
                self.record(|| Call::Shrink);
                on!(self, shrink_to_fit());
            }
            13 => self.clear(),
            14 => {
                self.last = "clone".into();
                self.g = self.g.clone();
            }
            15 => {
                let c = *ctx.pick(&CODECS).unwrap();
                self.checkpoint(c);
            }
            16 => self.crash(ctx),
            17 => {
                let mut mix = self.mix.clone().build();
                mix.w = vec![0; OPS.len()];
                for (i, w) in [(0, 5), (2, 6), (3, 3), (1, 1), (7, 1)] {
                    mix.w[i] = w;
                }
                mix.max_nodes = 3;
                let steps = ctx.range(1, 6);
                let (g, e) = if ctx.chance(40) && G::MULTI {
                    let w = World::<MultiPortGraph<u32, u32, G::O>>::grown(ctx, mix, steps);
                    let e = w.m.e.clone();
                    (Err(w.g), e)
                } else {
                    let w = World::<PortGraph<u32, u32, G::O>>::grown(ctx, mix, steps);
                    let e = w.m.e.clone();
                    (Ok(w.g), e)
                };
                match g {
                    Ok(g) => {
                        self.record(|| Call::InsertGraph(default_offsets(&g)));
                        self.insert_graph(ctx, &g, &e)
                    }
                    Err(g) => {
                        self.record(|| Call::InsertMulti(default_offsets(&g)));
                        self.insert_graph(ctx, &g, &e)
                    }
                }
            }
            18 => {
                let all: Vec<N> = self.m.e.nodes.keys().copied().collect();
                let mut nodes = ctx.subset(&all, 40);
                nodes.truncate(4);
                ctx.shuffle(&mut nodes);
                if !nodes.is_empty() && ctx.chance(10) {
                    nodes.push(nodes[0]);
                }
                self.copy_in_parent(&nodes);
            }
            _ => unreachable!(),
        }
        let last = &self.last;
        let rejected = self.rejected;
        ctx.log(|| format!("client {}: {last}{}", self.cur, if rejected { " [rejected]" } else { "" }));
        if rejected {
            ctx.probe("rejected or absent");
        }
        ctx.state(fingerprint(&self.m.e));
    }

    /// Compares the whole graph with the model.
    pub fn check(&self) {
        let absent_n: Vec<N> = self.stale_nodes.iter().copied().chain(self.g.hidden_nodes()).chain([self.m.e.bound_nodes(), self.m.e.bound_nodes() + 7]).collect();
        let absent_p: Vec<P> = self.stale_ports.iter().copied().chain(self.g.hidden_ports()).chain([self.m.e.bound_ports(), self.m.e.bound_ports() + 9]).collect();
        let who = format!("{} after {}", G::NAME, self.last);
        if self.by_ref {
            check_view(&&self.g, &self.m.e, &who, &absent_n, &absent_p);
        } else {
            check_view(&self.g, &self.m.e, &who, &absent_n, &absent_p);
        }
        self.g.g_check_subports(&self.m.e, &who);
        self.g.g_check_plain(&self.m.e, &who);
        for x in self.m.e.nodes.keys() {
            check!(
                self.g.node_port_capacity(n(*x)) >= self.m.e.nodes[x][0].len() + self.m.e.nodes[x][1].len(),
                "capacity",
                "{who}: capacity of node {x} is below its number of ports"
            );
        }
    }
}
