//! The dynamic convexity checker: a graph that is edited through it.

use super::c_algo::{draw_ports, draw_set, ports_it};
use super::c_views::{is_convex, scene_mix};
use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::model::*;
use crate::scene::node_list;
use crate::{check, check_eq, fail};
use ::portgraph::algorithms::*;
use ::portgraph::boundary::HasBoundary;
use ::portgraph::portgraph::PortOperation;
use ::portgraph::view::*;
use ::portgraph::*;
use delegate::delegate;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A checker, together with a graph that undergoes the same calls.
pub struct Dyn<G> {
    pub c: DynamicTopoConvexChecker<G>,
    twin: G,
}
impl<G: Gr> Dyn<G> {
    pub fn new(twin: G) -> Self {
        Dyn { c: DynamicTopoConvexChecker::new(twin.clone()), twin }
    }
    fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) -> T {
        check_eq!(a, b, "checker result", "{what} through the checker, against the same call on the graph");
        a
    }
}
impl<G: Gr> Clone for Dyn<G> {
    fn clone(&self) -> Self {
        Dyn::new(self.twin.clone())
    }
}
impl<G: Gr> Default for Dyn<G> {
    fn default() -> Self {
        Dyn::new(G::default())
    }
}
impl<G: Gr> PartialEq for Dyn<G> {
    fn eq(&self, o: &Self) -> bool {
        self.twin == o.twin
    }
}
impl<G: Gr> std::fmt::Debug for Dyn<G> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.twin.fmt(f)
    }
}
impl<G: Gr> serde::Serialize for Dyn<G> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.twin.serialize(s)
    }
}
impl<'de, G: Gr> serde::Deserialize<'de> for Dyn<G> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        G::deserialize(d).map(Dyn::new)
    }
}
impl<G: Gr> PortView for Dyn<G> {
    type PortOffsetBase = u16;
    delegate! {
        to self.c {
            fn port_direction(&self, port: impl Into<PortIndex>) -> Option<Direction>;
            fn port_node(&self, port: impl Into<PortIndex>) -> Option<NodeIndex>;
            fn port_offset(&self, port: impl Into<PortIndex>) -> Option<PortOffset<u16>>;
            fn port_index(&self, node: NodeIndex, offset: PortOffset<u16>) -> Option<PortIndex>;
            fn ports(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = PortIndex> + Clone;
            fn all_ports(&self, node: NodeIndex) -> impl Iterator<Item = PortIndex> + Clone;
            fn input(&self, node: NodeIndex, offset: usize) -> Option<PortIndex>;
            fn output(&self, node: NodeIndex, offset: usize) -> Option<PortIndex>;
            fn num_ports(&self, node: NodeIndex, direction: Direction) -> usize;
            fn port_offsets(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = PortOffset<u16>> + Clone;
            fn all_port_offsets(&self, node: NodeIndex) -> impl Iterator<Item = PortOffset<u16>> + Clone;
            fn contains_node(&self, node: NodeIndex) -> bool;
            fn contains_port(&self, port: PortIndex) -> bool;
            fn is_empty(&self) -> bool;
            fn node_count(&self) -> usize;
            fn port_count(&self) -> usize;
            fn nodes_iter(&self) -> impl Iterator<Item = NodeIndex> + Clone;
            fn ports_iter(&self) -> impl Iterator<Item = PortIndex> + Clone;
            fn node_capacity(&self) -> usize;
            fn port_capacity(&self) -> usize;
            fn node_port_capacity(&self, node: NodeIndex) -> usize;
        }
    }
}
impl<G: Gr> LinkView for Dyn<G> {
    type LinkEndpoint = G::LinkEndpoint;
    delegate! {
        to self.c {
            fn get_connections(&self, from: NodeIndex, to: NodeIndex) -> impl Iterator<Item = (Self::LinkEndpoint, Self::LinkEndpoint)> + Clone;
            fn port_links(&self, port: PortIndex) -> impl Iterator<Item = (Self::LinkEndpoint, Self::LinkEndpoint)> + Clone;
            fn links(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = (Self::LinkEndpoint, Self::LinkEndpoint)> + Clone;
            fn all_links(&self, node: NodeIndex) -> impl Iterator<Item = (Self::LinkEndpoint, Self::LinkEndpoint)> + Clone;
            fn neighbours(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = NodeIndex> + Clone;
            fn all_neighbours(&self, node: NodeIndex) -> impl Iterator<Item = NodeIndex> + Clone;
            fn link_count(&self) -> usize;
        }
    }
}
impl<G: Gr> PortMut for Dyn<G> {
    fn add_node(&mut self, incoming: usize, outgoing: usize) -> NodeIndex {
        let a = self.c.add_node(incoming, outgoing);
        let b = self.twin.add_node(incoming, outgoing);
        Self::same("add_node", a, b)
    }
    fn remove_node(&mut self, node: NodeIndex) {
        self.c.remove_node(node);
        self.twin.remove_node(node);
    }
    fn clear(&mut self) {
        self.c.clear();
        self.twin.clear();
    }
    fn reserve(&mut self, nodes: usize, ports: usize) {
        self.c.reserve(nodes, ports);
        self.twin.reserve(nodes, ports);
    }
    fn set_num_ports<F: FnMut(PortIndex, PortOperation)>(&mut self, node: NodeIndex, incoming: usize, outgoing: usize, mut rekey: F) {
        let (mut a, mut b) = (vec![], vec![]);
        self.c.set_num_ports(node, incoming, outgoing, |q, op| {
            a.push(format!("{q:?} {op:?}"));
            rekey(q, op)
        });
        self.twin.set_num_ports(node, incoming, outgoing, |q, op| b.push(format!("{q:?} {op:?}")));
        Self::same("set_num_ports", a, b);
    }
    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
        self.c.swap_nodes(a, b);
        self.twin.swap_nodes(a, b);
    }
    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
        let (mut a, mut b) = (vec![], vec![]);
        self.c.compact_nodes(|x, y| {
            a.push((x, y));
            rekey(x, y)
        });
        self.twin.compact_nodes(|x, y| b.push((x, y)));
        Self::same("compact_nodes", a, b);
    }
    fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, mut rekey: F) {
        let (mut a, mut b) = (vec![], vec![]);
        self.c.compact_ports(|x, y| {
            a.push((x, y));
            rekey(x, y)
        });
        self.twin.compact_ports(|x, y| b.push((x, y)));
        Self::same("compact_ports", a, b);
    }
    fn shrink_to_fit(&mut self) {
        self.c.shrink_to_fit();
        self.twin.shrink_to_fit();
    }
}
type Linked<G> = Result<(<G as LinkView>::LinkEndpoint, <G as LinkView>::LinkEndpoint), LinkError<u16>>;
impl<G: Gr> LinkMut for Dyn<G> {
    fn link_ports(&mut self, port_a: PortIndex, port_b: PortIndex) -> Linked<G> {
        let a = self.c.link_ports(port_a, port_b);
        let b = self.twin.link_ports(port_a, port_b);
        check_eq!(a.is_ok(), b.is_ok(), "checker result", "link_ports({port_a:?}, {port_b:?}) through the checker, against the same call on the graph");
        if let (Ok(a), Ok(b)) = (&a, &b) {
            Self::same("link_ports", *a, *b);
        }
        a
    }
    fn link_nodes(&mut self, from: NodeIndex, from_output: usize, to: NodeIndex, to_input: usize) -> Linked<G> {
        let a = self.c.link_nodes(from, from_output, to, to_input);
        let b = self.twin.link_nodes(from, from_output, to, to_input);
        check_eq!(a.is_ok(), b.is_ok(), "checker result", "link_nodes({from:?}, {from_output}, {to:?}, {to_input}) through the checker, against the same call on the graph");
        a
    }
    fn link_offsets(&mut self, node_a: NodeIndex, offset_a: PortOffset<u16>, node_b: NodeIndex, offset_b: PortOffset<u16>) -> Linked<G> {
        let a = self.c.link_offsets(node_a, offset_a, node_b, offset_b);
        let b = self.twin.link_offsets(node_a, offset_a, node_b, offset_b);
        check_eq!(a.is_ok(), b.is_ok(), "checker result", "link_offsets({node_a:?}, {offset_a:?}, {node_b:?}, {offset_b:?}) through the checker, against the same call on the graph");
        a
    }
    fn unlink_port(&mut self, port: PortIndex) -> Option<G::LinkEndpoint> {
        let a = self.c.unlink_port(port);
        let b = self.twin.unlink_port(port);
        Self::same("unlink_port", a, b)
    }
}
impl<G: Gr> AnyGr for Dyn<G> {
    type E = G::E;
    type O = u16;
    const MULTI: bool = G::MULTI;
    const NAME: &'static str = "DynamicTopoConvexChecker";
    fn empty() -> Self {
        Dyn::new(G::empty())
    }
    fn sized(nodes: usize, ports: usize) -> Self {
        Dyn::new(G::sized(nodes, ports))
    }
    fn g_subport_link(&self, s: Ep) -> Option<Ep> {
        self.twin.g_subport_link(s)
    }
    fn g_subports(&self, node: N, d: usize) -> Vec<Ep> {
        self.twin.g_subports(node, d)
    }
    fn g_all_subports(&self, node: N) -> Vec<Ep> {
        self.twin.g_all_subports(node)
    }
    fn g_link_subports(&mut self, a: Ep, b: Ep) -> Result<(), LinkError<u16>> {
        self.link_ports(p(a.0), p(b.0)).map(|_| ())
    }
    fn g_unlink_subport(&mut self, s: Ep) -> Option<Ep> {
        self.unlink_port(p(s.0)).map(|x| x.ep())
    }
    fn hidden_nodes(&self) -> Vec<N> {
        self.twin.hidden_nodes()
    }
    fn slots(&self) -> usize {
        self.twin.slots()
    }
    fn hidden_ports(&self) -> BTreeSet<P> {
        self.twin.hidden_ports()
    }
    fn g_check_subports(&self, _e: &Expected, _who: &str) {}
}

pub const P20: CheckDef = CheckDef {
    id: "P20",
    f: p20,
    quick_runs: 80_000,
    thorough_runs: 1_600_000,
    about: "an acyclic graph is edited through a DynamicTopoConvexChecker by interleaved clients (all mutators, both argument orders, links that point against the current order preferred), with stale and occupied arguments, links that would close a cycle, clones, crashes and restarts that rebuild the checker; after every edit the graph it presents is compared with the model and drawn node sets and boundary ports are asked about and compared with the definition and with a fresh checker",
    real: "DynamicTopoConvexChecker, DynamicTopoSort, toposort, PortGraph, MultiPortGraph",
    stub: "node iterators (simulated caller code)",
    assumes: &["the definition of convexity in the model", "a refusal of a cyclic link is a panic or an error"],
};
fn p20(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        dynamic::<PortGraph>(ctx)
    } else {
        dynamic::<MultiPortGraph>(ctx)
    }
}
fn dynamic<G: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[5, 8, 12, 18]).acyclic();
    mix.w[2] *= 2;
    mix.w[3] *= 2;
    // The checker has no subport calls.
    mix.w[5] = 0;
    mix.w[6] = 0;
    mix.w[13] = *ctx.pick(&[0, 1, 3]).unwrap();
    mix.w[14] = mix.w[14].min(1);
    mix.w[15] = mix.w[15].min(1);
    mix.w[16] = mix.w[16].min(1);
    ctx.max_steps = ctx.range(6, if ctx.thorough { 120 } else { 50 });
    let mut w = World::<Dyn<G>>::new(ctx, mix);
    let every = ctx.range(1, 4);
    while ctx.next_step() {
        match ctx.draw(10) {
            0 => stray(ctx, &mut w),
            1 | 2 => against(ctx, &mut w),
            _ => w.step(ctx),
        }
        w.check();
        if ctx.draw(every) == 0 {
            ask(ctx, &w);
        }
    }
    ask(ctx, &w);
}
/// A link that makes the order change, where there is one.
pub fn against<G: Gr>(ctx: &mut Ctx, w: &mut World<Dyn<G>>) {
    // New nodes are placed last.
    let (Some(mut x), Some(mut y)) = (w.live_node(ctx), w.live_node(ctx)) else { return w.step(ctx) };
    if w.m.nuid[&x] < w.m.nuid[&y] {
        std::mem::swap(&mut x, &mut y);
    }
    if w.closes_cycle(x, y) {
        return w.step(ctx);
    }
    let free = |w: &World<Dyn<G>>, z: N, d: usize| w.m.e.nodes[&z][d].iter().copied().find(|q| G::MULTI || w.m.e.port_links(*q).is_empty());
    let (Some(a), Some(b)) = (free(w, x, OUT), free(w, y, IN)) else { return w.step(ctx) };
    ctx.probe("link against the order");
    if ctx.chance(30) {
        w.link_ports(b, a);
    } else {
        w.link_ports(a, b);
    }
    ctx.log(|| w.last.clone());
}
/// A link that must be refused.
fn stray<G: Gr>(ctx: &mut Ctx, w: &mut World<Dyn<G>>) {
    if w.m.e.ports.is_empty() {
        return w.step(ctx);
    }
    let any = |ctx: &mut Ctx, w: &World<Dyn<G>>, d: usize| -> P {
        match ctx.draw(8) {
            0 => {
                ctx.fault("stale or foreign port handle");
                ctx.draw(w.m.e.bound_ports() + 4)
            }
            1 => w.live_port(ctx, None).unwrap_or(0),
            _ => w.live_port(ctx, Some(d)).unwrap_or(0),
        }
    };
    let (a, b) = (any(ctx, w, OUT), any(ctx, w, IN));
    let (a, b) = if ctx.chance(40) { (b, a) } else { (a, b) };
    let e = &w.m.e;
    let hidden = w.g.hidden_ports();
    let strange = hidden.contains(&a) || hidden.contains(&b);
    let cycle = match (e.ports.get(&a), e.ports.get(&b)) {
        (Some((x, IN, _)), Some((y, OUT, _))) => w.closes_cycle(*y, *x),
        (Some((x, OUT, _)), Some((y, IN, _))) => w.closes_cycle(*x, *y),
        _ => false,
    };
    if !cycle && !strange {
        w.link_ports(a, b);
        ctx.log(|| w.last.clone());
        return;
    }
    if cycle {
        ctx.fault("link that would close a cycle");
    }
    w.last = format!("refused link_ports({a}, {b})");
    ctx.log(|| w.last.clone());
    let r = catch_unwind(AssertUnwindSafe(|| w.g.c.link_ports(p(a), p(b)).is_ok()));
    let refused = match r {
        Ok(ok) => !ok,
        Err(payload) => match classify(payload) {
            Caught::Violation(v) => violate(&v.class, v.msg),
            Caught::Injected => fail!("injected", "nothing was injected"),
            Caught::Panic(..) => true,
        },
    };
    check!(refused, "cycle accepted", "link_ports({a}, {b}) was accepted, although it closes a cycle or joins ports that do not exist");
}
pub fn ask<G: Gr>(ctx: &mut Ctx, w: &World<Dyn<G>>) {
    let e = &w.m.e;
    let c = &w.g.c;
    let last = &w.last;
    for _ in 0..ctx.range(1, 4) {
        let v = draw_set(ctx, e);
        let set: BTreeSet<N> = v.iter().copied().collect();
        let (ins, outs) = draw_ports(ctx, e, &v);
        let want = v.len() < 2 || is_convex(e, &set, &ins, &outs);
        ctx.log(|| format!("nodes {v:?}, inputs {ins:?}, outputs {outs:?}: {want}"));
        ctx.probe(if want { "convex" } else { "not convex" });
        let mut twice = v.clone();
        twice.extend(ctx.pick(&v).copied());
        let got = c.is_convex(node_list(&twice), ports_it(&ins), ports_it(&outs));
        check_eq!(got, want, "is_convex", "after {last}: is_convex({twice:?}, {ins:?}, {outs:?})");
        if ctx.chance(30) {
            // With the boundary of the set.
            let sub = Subgraph::with_nodes(&w.g.twin, node_list(&v));
            let b = sub.port_boundary().into_owned();
            let (bi, bo) = (px(b.input_indices().iter().copied()), px(b.output_indices().iter().copied()));
            check_eq!(sub.is_convex_with_checker(c), v.len() < 2 || is_convex(e, &set, &bi, &bo), "subgraph", "after {last}: Subgraph::is_convex_with_checker for {v:?}");
        }
        if ctx.chance(20) {
            // Nodes that do not exist.
            let mut odd = v.clone();
            let x = ctx.draw(e.bound_nodes() + 3);
            odd.push(x);
            let fresh = DynamicTopoConvexChecker::new(&w.g.twin);
            let got = c.is_convex(node_list(&odd), [], []);
            check_eq!(got, fresh.is_convex(node_list(&odd), [], []), "fresh", "after {last}: is_convex({odd:?}), against a fresh checker");
        }
    }
}
