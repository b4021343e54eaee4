//! A graph and a hierarchy that change together, and random views of them,
//! nested to any depth.

use crate::check;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::hier::{tree, Forest};
use crate::model::Expected;
use crate::seam::tick;
use ::portgraph::index::MaybeNodeIndex;
use ::portgraph::view::*;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

pub struct Scene<G: Gr> {
    pub w: World<G>,
    pub h: Hierarchy,
    pub f: Forest,
    shape: usize,
    /// Percentage of nodes attached when they can be.
    density: usize,
}
impl<G: Gr> Scene<G> {
    pub fn new(ctx: &mut Ctx, mix: Mix) -> Self {
        let mut w = World::<G>::new(ctx, mix);
        w.forget_checkpoint();
        Scene { w, h: Hierarchy::new(), f: Forest::default(), shape: ctx.draw(3), density: *ctx.pick(&[70, 95, 30]).unwrap() }
    }
    /// Lets the hierarchy follow the index changes of the graph.
    pub fn sync(&mut self) {
        let mut restarted = false;
        for ev in std::mem::take(&mut self.w.events) {
            match ev {
                Ev::NodeRemoved(x, _) => {
                    self.h.remove(n(x));
                    self.f.remove(x);
                }
                Ev::NodeMoved(a, b) => {
                    self.h.rekey(n(a), n(b));
                    self.f.rename(|z| if z == a { b } else { z });
                }
                Ev::NodesSwapped(a, b) => {
                    self.h.swap_nodes(n(a), n(b));
                    self.f.rename(|z| if z == a { b } else if z == b { a } else { z });
                }
                Ev::Restarted | Ev::Cleared => restarted = true,
                _ => {}
            }
        }
        if restarted {
            for x in 0..self.f.bound() {
                if !self.w.m.e.nodes.contains_key(&x) {
                    self.h.remove(n(x));
                    self.f.remove(x);
                }
            }
        }
    }
    /// One operation on the graph, and a few on the hierarchy.
    pub fn step(&mut self, ctx: &mut Ctx) {
        let larger = self.w.mix.bulk.is_some();
        self.w.step(ctx);
        self.sync();
        if larger {
            let nodes: Vec<N> = self.w.m.e.nodes.keys().copied().collect();
            for (x, q, front) in tree(ctx, &nodes) {
                self.attach_at(x, q, front);
            }
            ctx.log(|| "hierarchy: a large forest".to_string());
        }
        for _ in 0..2 {
            self.attach(ctx);
        }
    }
    fn attach_at(&mut self, x: N, q: N, front: bool) {
        let r = if front { self.h.push_front_child(n(x), n(q)) } else { self.h.push_child(n(x), n(q)) };
        check!(r.is_ok(), "attach", "push_child({x}, {q})");
        let at = if front { 0 } else { self.f.kids(q).len() };
        self.f.attach(x, q, at);
    }
    pub fn attach(&mut self, ctx: &mut Ctx) {
        let nodes: Vec<N> = self.w.m.e.nodes.keys().copied().collect();
        if nodes.is_empty() {
            return;
        }
        let (x, q) = (*ctx.pick(&nodes).unwrap(), *ctx.pick(&nodes).unwrap());
        let q = match self.shape {
            0 => q,
            // Deep chains.
            1 if ctx.chance(70) => nodes.iter().copied().max_by_key(|y| (self.f.ancestors(*y).len(), *y)).unwrap_or(q),
            1 => q,
            _ => nodes[0],
        };
        if ctx.chance(self.density) {
            if !self.f.parent.contains_key(&x) && !self.f.is_ancestor_or_self(x, q) {
                let front = ctx.chance(30);
                self.attach_at(x, q, front);
                ctx.log(|| format!("hierarchy: attach {x} to {q}"));
            }
        } else {
            self.h.detach(n(x));
            self.f.detach(x);
            ctx.log(|| format!("hierarchy: detach {x}"));
        }
    }
    pub fn grown(ctx: &mut Ctx, mix: Mix, steps: usize) -> Self {
        let mut s = Self::new(ctx, mix);
        for _ in 0..steps {
            if !ctx.next_step() {
                break;
            }
            s.step(ctx);
        }
        s
    }
}

/// What filters of the simulated callers accept.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sets {
    pub nodes: BTreeSet<N>,
    pub ports: BTreeSet<P>,
}
pub fn node_in(x: NodeIndex, s: &Sets) -> bool {
    tick("node filter");
    s.nodes.contains(&x.index())
}
pub fn port_in(x: PortIndex, s: &Sets) -> bool {
    tick("link filter");
    s.ports.contains(&x.index())
}
pub fn node_any(_: NodeIndex, _: &Sets) -> bool {
    tick("node filter");
    true
}
pub fn port_any(_: PortIndex, _: &Sets) -> bool {
    tick("link filter");
    true
}
pub type Filtered<G> = FilteredGraph<G, NodeFilter<Sets>, LinkFilter<Sets>, Sets>;

/// A view to build over another one.
#[derive(Clone, Debug)]
pub enum Plan {
    Filter { nodes: bool, ports: bool, sets: Sets },
    NodeFilter { sets: Sets },
    Sub(Vec<N>),
    Region(N),
    Flat { root: N, include: bool, owned: bool },
}
impl Plan {
    pub fn draw(ctx: &mut Ctx, e: &Expected, f: &Forest) -> Plan {
        let all: Vec<N> = e.nodes.keys().copied().collect();
        match ctx.draw(5) {
            k @ (3 | 4) => {
                let roots: Vec<N> = if k == 3 {
                    all.iter().copied().filter(|x| f.descendants(*x).iter().all(|y| e.nodes.contains_key(y))).collect()
                } else {
                    all.iter().copied().filter(|x| f.kids(*x).iter().all(|y| e.nodes.contains_key(y))).collect()
                };
                // Prefer roots with descendants.
                let big: Vec<N> = roots.iter().copied().filter(|x| !f.kids(*x).is_empty()).collect();
                let roots = if !big.is_empty() && ctx.chance(80) { big } else { roots };
                match (ctx.pick(&roots).copied(), k) {
                    (Some(r), 3) => return Plan::Region(r),
                    (Some(root), _) => return Plan::Flat { root, include: !ctx.chance(50), owned: ctx.chance(30) },
                    _ => {}
                }
                Plan::Sub(vec![])
            }
            2 => {
                let pct = *ctx.pick(&[60, 30, 90]).unwrap();
                let mut v = ctx.subset(&all, pct);
                ctx.shuffle(&mut v);
                if ctx.chance(15) {
                    if let Some(x) = v.first().copied() {
                        v.push(x);
                    }
                }
                Plan::Sub(v)
            }
            k => {
                let pct = *ctx.pick(&[75, 50, 95]).unwrap();
                let nodes: BTreeSet<N> = ctx.subset(&all, pct).into_iter().collect();
                let ports: Vec<P> = e.ports.keys().copied().take(400).collect();
                let pct = *ctx.pick(&[75, 50, 95]).unwrap();
                let ports: BTreeSet<P> = ctx.subset(&ports, pct).into_iter().collect();
                let sets = Sets { nodes, ports };
                if k == 1 && ctx.chance(30) {
                    return Plan::NodeFilter { sets };
                }
                Plan::Filter { nodes: !ctx.chance(30), ports: !ctx.chance(30), sets }
            }
        }
    }
    pub fn expected(&self, e: &Expected, f: &Forest) -> Expected {
        match self {
            Plan::Filter { nodes, ports, sets } => {
                e.restrict(|x| !nodes || sets.nodes.contains(&x), |a, b| !ports || (sets.ports.contains(&a.0) && sets.ports.contains(&b.0)))
            }
            Plan::NodeFilter { sets } => e.restrict(|x| sets.nodes.contains(&x), |_, _| true),
            Plan::Sub(v) => e.restrict(|x| v.contains(&x), |_, _| true),
            Plan::Region(r) => {
                let set: BTreeSet<N> = f.descendants(*r).into_iter().collect();
                e.restrict(|x| set.contains(&x), |_, _| true)
            }
            Plan::Flat { root, include, .. } => e.restrict(|x| (*include && x == *root) || f.parent.get(&x) == Some(root), |_, _| true),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Plan::Filter { .. } => "FilteredGraph",
            Plan::NodeFilter { .. } => "NodeFiltered",
            Plan::Sub(_) => "Subgraph",
            Plan::Region(_) => "Region",
            Plan::Flat { .. } => "FlatRegion",
        }
    }
}
pub fn filtered<G: Clone>(g: G, nodes: bool, ports: bool, sets: &Sets) -> Filtered<G> {
    let nf: NodeFilter<Sets> = if nodes { node_in } else { node_any };
    let lf: LinkFilter<Sets> = if ports { port_in } else { port_any };
    FilteredGraph::new(g, nf, lf, sets.clone())
}
/// A node list whose iteration goes through the seam.
pub fn node_list(v: &[N]) -> impl Iterator<Item = NodeIndex> + Clone + '_ {
    v.iter().map(|x| {
        tick("node iterator");
        n(*x)
    })
}

/// Builds the planned view and evaluates the body with it.
#[macro_export]
macro_rules! with_view {
    ($plan:expr, $base:expr, $h:expr, |$v:ident| $body:expr) => {{
        use ::portgraph::view::*;
        match $plan {
            $crate::scene::Plan::Filter { nodes, ports, sets } => {
                let $v = $crate::scene::filtered($base, *nodes, *ports, sets);
                $crate::check_eq!($v.context(), sets, "context", "the context of the filtered graph");
                $body
            }
            $crate::scene::Plan::NodeFilter { sets } => {
                let nf: NodeFilter<$crate::scene::Sets> = $crate::scene::node_in;
                let $v: $crate::scene::Filtered<_> = NodeFiltered::new_node_filtered($base, nf, sets.clone());
                $crate::check_eq!($v.context(), sets, "context", "the context of the filtered graph");
                $body
            }
            $crate::scene::Plan::Sub(v) => {
                let $v = Subgraph::with_nodes($base, $crate::scene::node_list(v));
                $body
            }
            $crate::scene::Plan::Region(r) => {
                let $v = Region::new($base, $h, $crate::gr::n(*r));
                $crate::check_eq!($v.region_root(), $crate::gr::n(*r), "region_root", "the root of the region");
                $body
            }
            $crate::scene::Plan::Flat { root, include, owned } => {
                let c: std::borrow::Cow<'_, ::portgraph::Hierarchy> = if *owned { $h.clone().into() } else { $h.into() };
                let $v = if *include { FlatRegion::new_with_root($base, c, $crate::gr::n(*root)) } else { FlatRegion::new_without_root($base, c, $crate::gr::n(*root)) };
                $crate::check_eq!(($v.region_root(), $v.includes_root()), ($crate::gr::n(*root), *include), "region_root", "the root of the flat region");
                $body
            }
        }
    }};
}

// ---- A graph supplied by the caller: any view behind the seam.

pub trait DynView: Sync {
    fn d_contains_node(&self, x: NodeIndex) -> bool;
    fn d_contains_port(&self, x: PortIndex) -> bool;
    fn d_direction(&self, x: PortIndex) -> Option<Direction>;
    fn d_node(&self, x: PortIndex) -> Option<NodeIndex>;
    fn d_offset(&self, x: PortIndex) -> Option<PortOffset<u16>>;
    fn d_index(&self, x: NodeIndex, o: PortOffset<u16>) -> Option<PortIndex>;
    fn d_ports(&self, x: NodeIndex, d: Direction) -> Vec<PortIndex>;
    fn d_all_ports(&self, x: NodeIndex) -> Vec<PortIndex>;
    fn d_inout(&self, x: NodeIndex, d: Direction, k: usize) -> Option<PortIndex>;
    fn d_num_ports(&self, x: NodeIndex, d: Direction) -> usize;
    fn d_offsets(&self, x: NodeIndex, d: Direction) -> Vec<PortOffset<u16>>;
    fn d_all_offsets(&self, x: NodeIndex) -> Vec<PortOffset<u16>>;
    /// is_empty, node_count, port_count, link_count, node_capacity,
    /// port_capacity
    fn d_count(&self, k: usize) -> usize;
    fn d_node_capacity(&self, x: NodeIndex) -> usize;
    fn d_nodes(&self) -> Vec<NodeIndex>;
    fn d_all_the_ports(&self) -> Vec<PortIndex>;
    fn d_connections(&self, a: NodeIndex, b: NodeIndex) -> Vec<(Ep, Ep)>;
    fn d_port_links(&self, x: PortIndex) -> Vec<(Ep, Ep)>;
    fn d_links(&self, x: NodeIndex, d: Option<Direction>) -> Vec<(Ep, Ep)>;
    fn d_neighbours(&self, x: NodeIndex, d: Option<Direction>) -> Vec<NodeIndex>;
}
pub trait DynMulti: Sync {
    fn d_subports(&self, x: NodeIndex, d: Option<Direction>) -> Vec<Ep>;
    fn d_subport_link(&self, s: Ep) -> Option<Ep>;
}
fn e2<E: EpT>(it: impl Iterator<Item = (E, E)>) -> Vec<(Ep, Ep)> {
    it.map(|(a, b)| (a.ep(), b.ep())).collect()
}
impl<V> DynView for V
where
    V: LinkView<PortOffsetBase = u16> + Sync,
    V::LinkEndpoint: EpT,
{
    fn d_contains_node(&self, x: NodeIndex) -> bool {
        self.contains_node(x)
    }
    fn d_contains_port(&self, x: PortIndex) -> bool {
        self.contains_port(x)
    }
    fn d_direction(&self, x: PortIndex) -> Option<Direction> {
        self.port_direction(x)
    }
    fn d_node(&self, x: PortIndex) -> Option<NodeIndex> {
        self.port_node(x)
    }
    fn d_offset(&self, x: PortIndex) -> Option<PortOffset<u16>> {
        self.port_offset(x)
    }
    fn d_index(&self, x: NodeIndex, o: PortOffset<u16>) -> Option<PortIndex> {
        self.port_index(x, o)
    }
    fn d_ports(&self, x: NodeIndex, d: Direction) -> Vec<PortIndex> {
        self.ports(x, d).collect()
    }
    fn d_all_ports(&self, x: NodeIndex) -> Vec<PortIndex> {
        self.all_ports(x).collect()
    }
    fn d_inout(&self, x: NodeIndex, d: Direction, k: usize) -> Option<PortIndex> {
        if d == Direction::Incoming {
            self.input(x, k)
        } else {
            self.output(x, k)
        }
    }
    fn d_num_ports(&self, x: NodeIndex, d: Direction) -> usize {
        self.num_ports(x, d)
    }
    fn d_offsets(&self, x: NodeIndex, d: Direction) -> Vec<PortOffset<u16>> {
        self.port_offsets(x, d).collect()
    }
    fn d_all_offsets(&self, x: NodeIndex) -> Vec<PortOffset<u16>> {
        self.all_port_offsets(x).collect()
    }
    fn d_count(&self, k: usize) -> usize {
        match k {
            0 => self.is_empty() as usize,
            1 => self.node_count(),
            2 => self.port_count(),
            3 => self.link_count(),
            4 => self.node_capacity(),
            _ => self.port_capacity(),
        }
    }
    fn d_node_capacity(&self, x: NodeIndex) -> usize {
        self.node_port_capacity(x)
    }
    fn d_nodes(&self) -> Vec<NodeIndex> {
        self.nodes_iter().collect()
    }
    fn d_all_the_ports(&self) -> Vec<PortIndex> {
        self.ports_iter().collect()
    }
    fn d_connections(&self, a: NodeIndex, b: NodeIndex) -> Vec<(Ep, Ep)> {
        e2(self.get_connections(a, b))
    }
    fn d_port_links(&self, x: PortIndex) -> Vec<(Ep, Ep)> {
        e2(self.port_links(x))
    }
    fn d_links(&self, x: NodeIndex, d: Option<Direction>) -> Vec<(Ep, Ep)> {
        match d {
            Some(d) => e2(self.links(x, d)),
            None => e2(self.all_links(x)),
        }
    }
    fn d_neighbours(&self, x: NodeIndex, d: Option<Direction>) -> Vec<NodeIndex> {
        match d {
            Some(d) => self.neighbours(x, d).collect(),
            None => self.all_neighbours(x).collect(),
        }
    }
}
/// The views with subports, as a type of their own, since a plain view cannot
/// tell whether it has any.
pub struct Multi<'a, V>(pub &'a V);
impl<V> DynMulti for Multi<'_, V>
where
    V: MultiView<PortOffsetBase = u16> + Sync,
    V::LinkEndpoint: EpT,
{
    fn d_subports(&self, x: NodeIndex, d: Option<Direction>) -> Vec<Ep> {
        match d {
            Some(d) => self.0.subports(x, d).map(|s| s.ep()).collect(),
            None => self.0.all_subports(x).map(|s| s.ep()).collect(),
        }
    }
    fn d_subport_link(&self, s: Ep) -> Option<Ep> {
        self.0.subport_link(V::LinkEndpoint::of(s)).map(|s| s.ep())
    }
}

/// An iterator of a simulated caller.
#[derive(Clone)]
pub struct Lazy<T>(std::vec::IntoIter<T>, &'static str);
impl<T> Iterator for Lazy<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick(self.1);
        self.0.next()
    }
}

pub struct Erased<'a, E> {
    v: &'a (dyn DynView + 'a),
    m: Option<&'a (dyn DynMulti + 'a)>,
    _e: PhantomData<fn() -> E>,
}
impl<E> Clone for Erased<'_, E> {
    fn clone(&self) -> Self {
        tick("clone");
        *self
    }
}
impl<E> Copy for Erased<'_, E> {}
impl<'a, E: EpT> Erased<'a, E> {
    pub fn new(v: &'a dyn DynView, m: Option<&'a dyn DynMulti>) -> Self {
        Erased { v, m, _e: PhantomData }
    }
    fn lazy<T>(&self, site: &'static str, v: Vec<T>) -> Lazy<T> {
        Lazy(v.into_iter(), site)
    }
    fn links_of(&self, site: &'static str, v: Vec<(Ep, Ep)>) -> Lazy<(E, E)> {
        Lazy(v.into_iter().map(|(a, b)| (E::of(a), E::of(b))).collect::<Vec<_>>().into_iter(), site)
    }
}
impl<E: EpT> PortView for Erased<'_, E> {
    type PortOffsetBase = u16;
    fn port_direction(&self, port: impl Into<PortIndex>) -> Option<Direction> {
        tick("port_direction");
        self.v.d_direction(port.into())
    }
    fn port_node(&self, port: impl Into<PortIndex>) -> Option<NodeIndex> {
        tick("port_node");
        self.v.d_node(port.into())
    }
    fn port_offset(&self, port: impl Into<PortIndex>) -> Option<PortOffset<u16>> {
        tick("port_offset");
        self.v.d_offset(port.into())
    }
    fn port_index(&self, node: NodeIndex, offset: PortOffset<u16>) -> Option<PortIndex> {
        tick("port_index");
        self.v.d_index(node, offset)
    }
    fn ports(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = PortIndex> + Clone {
        tick("ports");
        self.lazy("ports", self.v.d_ports(node, direction))
    }
    fn all_ports(&self, node: NodeIndex) -> impl Iterator<Item = PortIndex> + Clone {
        tick("all_ports");
        self.lazy("all_ports", self.v.d_all_ports(node))
    }
    fn input(&self, node: NodeIndex, offset: usize) -> Option<PortIndex> {
        tick("input");
        self.v.d_inout(node, Direction::Incoming, offset)
    }
    fn output(&self, node: NodeIndex, offset: usize) -> Option<PortIndex> {
        tick("output");
        self.v.d_inout(node, Direction::Outgoing, offset)
    }
    fn num_ports(&self, node: NodeIndex, direction: Direction) -> usize {
        tick("num_ports");
        self.v.d_num_ports(node, direction)
    }
    fn port_offsets(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = PortOffset<u16>> + Clone {
        tick("port_offsets");
        self.lazy("port_offsets", self.v.d_offsets(node, direction))
    }
    fn all_port_offsets(&self, node: NodeIndex) -> impl Iterator<Item = PortOffset<u16>> + Clone {
        tick("all_port_offsets");
        self.lazy("all_port_offsets", self.v.d_all_offsets(node))
    }
    fn contains_node(&self, node: NodeIndex) -> bool {
        tick("contains_node");
        self.v.d_contains_node(node)
    }
    fn contains_port(&self, port: PortIndex) -> bool {
        tick("contains_port");
        self.v.d_contains_port(port)
    }
    fn is_empty(&self) -> bool {
        tick("is_empty");
        self.v.d_count(0) == 1
    }
    fn node_count(&self) -> usize {
        tick("node_count");
        self.v.d_count(1)
    }
    fn port_count(&self) -> usize {
        tick("port_count");
        self.v.d_count(2)
    }
    fn nodes_iter(&self) -> impl Iterator<Item = NodeIndex> + Clone {
        tick("nodes_iter");
        self.lazy("nodes_iter", self.v.d_nodes())
    }
    fn ports_iter(&self) -> impl Iterator<Item = PortIndex> + Clone {
        tick("ports_iter");
        self.lazy("ports_iter", self.v.d_all_the_ports())
    }
    fn node_capacity(&self) -> usize {
        self.v.d_count(4)
    }
    fn port_capacity(&self) -> usize {
        self.v.d_count(5)
    }
    fn node_port_capacity(&self, node: NodeIndex) -> usize {
        self.v.d_node_capacity(node)
    }
}
impl<E: EpT> LinkView for Erased<'_, E> {
    type LinkEndpoint = E;
    fn get_connections(&self, from: NodeIndex, to: NodeIndex) -> impl Iterator<Item = (E, E)> + Clone {
        tick("get_connections");
        self.links_of("get_connections", self.v.d_connections(from, to))
    }
    fn port_links(&self, port: PortIndex) -> impl Iterator<Item = (E, E)> + Clone {
        tick("port_links");
        self.links_of("port_links", self.v.d_port_links(port))
    }
    fn links(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = (E, E)> + Clone {
        tick("links");
        self.links_of("links", self.v.d_links(node, Some(direction)))
    }
    fn all_links(&self, node: NodeIndex) -> impl Iterator<Item = (E, E)> + Clone {
        tick("all_links");
        self.links_of("all_links", self.v.d_links(node, None))
    }
    fn neighbours(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = NodeIndex> + Clone {
        tick("neighbours");
        self.lazy("neighbours", self.v.d_neighbours(node, Some(direction)))
    }
    fn all_neighbours(&self, node: NodeIndex) -> impl Iterator<Item = NodeIndex> + Clone {
        tick("all_neighbours");
        self.lazy("all_neighbours", self.v.d_neighbours(node, None))
    }
    fn link_count(&self) -> usize {
        tick("link_count");
        self.v.d_count(3)
    }
}
impl<E: EpT> MultiView for Erased<'_, E> {
    fn subports(&self, node: NodeIndex, direction: Direction) -> impl Iterator<Item = E> + Clone {
        tick("subports");
        let v: Vec<Ep> = match self.m {
            Some(m) => m.d_subports(node, Some(direction)),
            None => self.v.d_ports(node, direction).into_iter().map(|q| (q.index(), 0)).collect(),
        };
        self.lazy("subports", v.into_iter().map(E::of).collect())
    }
    fn all_subports(&self, node: NodeIndex) -> impl Iterator<Item = E> + Clone {
        tick("all_subports");
        let v: Vec<Ep> = match self.m {
            Some(m) => m.d_subports(node, None),
            None => self.v.d_all_ports(node).into_iter().map(|q| (q.index(), 0)).collect(),
        };
        self.lazy("all_subports", v.into_iter().map(E::of).collect())
    }
    fn subport_link(&self, subport: E) -> Option<E> {
        tick("subport_link");
        let s = subport.ep();
        let r = match self.m {
            Some(m) => m.d_subport_link(s),
            None => self.v.d_port_links(p(s.0)).first().map(|(_, b)| *b),
        };
        r.map(E::of)
    }
}

// ---- A secondary map supplied by the caller.

pub trait Blank<V> {
    fn blank() -> V;
}
#[derive(Clone, Debug)]
pub struct Falsy;
#[derive(Clone, Debug)]
pub struct Truthy;
impl Blank<bool> for Falsy {
    fn blank() -> bool {
        false
    }
}
impl Blank<bool> for Truthy {
    fn blank() -> bool {
        true
    }
}
impl Blank<MaybeNodeIndex<u32>> for Falsy {
    fn blank() -> MaybeNodeIndex<u32> {
        MaybeNodeIndex::default()
    }
}
pub struct SimMap<K, V, B> {
    map: BTreeMap<K, V>,
    blank: V,
    _b: PhantomData<fn() -> B>,
}
impl<K: Ord + Copy, V: Clone + PartialEq, B: Blank<V>> SecondaryMap<K, V> for SimMap<K, V, B> {
    type Iter<'a>
        = Box<dyn Iterator<Item = (K, &'a V)> + 'a>
    where
        Self: 'a,
        K: 'a,
        V: 'a;
    fn new() -> Self {
        tick("map");
        SimMap { map: BTreeMap::new(), blank: B::blank(), _b: PhantomData }
    }
    fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn default_value(&self) -> V {
        B::blank()
    }
    fn ensure_capacity(&mut self, _: usize) {}
    fn capacity(&self) -> usize {
        0
    }
    fn get(&self, key: K) -> &V {
        tick("map");
        self.map.get(&key).unwrap_or(&self.blank)
    }
    fn set(&mut self, key: K, val: V) {
        tick("map");
        self.map.insert(key, val);
    }
    fn take(&mut self, key: K) -> V {
        tick("map");
        self.map.remove(&key).unwrap_or(B::blank())
    }
    fn iter<'a>(&'a self) -> Self::Iter<'a>
    where
        K: 'a,
        V: 'a,
    {
        Box::new(self.map.iter().filter(|(_, v)| **v != self.blank).map(|(k, v)| (*k, v)))
    }
}
