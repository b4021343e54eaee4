//! Lazy iterators of every structure, consumed in any way at the same time.

use super::c_views::{scene_mix, view_readers};
use super::CheckDef;
use crate::engine::*;
use crate::gr::*;
use crate::hier::Forest;
use crate::laws::*;
use crate::model::*;
use crate::scene::*;
use crate::{check_eq, with_view};
use ::petgraph;
use ::portgraph::algorithms::{postorder, toposort, TopoSort};
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::view::*;
use ::portgraph::*;
use bitvec::vec::BitVec;
use petgraph::visit::{EdgeRef, IntoEdgeReferences, IntoEdges, IntoEdgesDirected, IntoNeighborsDirected, IntoNodeIdentifiers};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};

type Readers<'a> = Vec<Box<dyn Step<'a> + 'a>>;

pub const P11: CheckDef = CheckDef {
    id: "P11",
    f: p11,
    quick_runs: 150_000,
    thorough_runs: 3_000_000,
    about: "a graph, its hierarchy and side tables are changed by interleaved clients through crashes and restarts; at random moments up to twelve iterators over graphs, views, subports, hierarchies, maps, boundaries, petgraph edges and traversals are alive at once, and a random schedule pulls, clones, resumes, drives from both ends, measures and abandons them one call at a time; the items left and every hint and length are compared with the items a front-to-back reading gives, which is itself compared with the model",
    real: "every public iterator of the graphs, views, Hierarchy, secondary maps, Boundary, EdgeRefs and NodeEdgeRefs, TopoSort, PostOrder",
    stub: "filters, node lists and the custom graph behind some views (simulated caller code)",
    assumes: &["the reference model states the intended behaviour", "only the methods that the public types expose are called (most graph iterators are opaque and only promise Iterator and Clone)"],
};
fn p11(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        lazily::<PortGraph>(ctx)
    } else {
        lazily::<MultiPortGraph>(ctx)
    }
}
/// Side tables of every type.
struct Tables {
    dense: UnmanagedDenseMap<NodeIndex, u32>,
    bits: BitVec,
    hset: HashSet<NodeIndex>,
    weights: Weights<u32, u16>,
    model: BTreeMap<N, u32>,
}
impl Tables {
    fn new() -> Self {
        Tables {
            dense: UnmanagedDenseMap::new(),
            bits: BitVec::new(),
            hset: HashSet::new(),
            weights: Weights::new(),
            model: BTreeMap::new(),
        }
    }
    fn step(&mut self, ctx: &mut Ctx) {
        let x = ctx.draw(20);
        let v = ctx.draw(4) as u32;
        self.dense.set(n(x), v);
        SecondaryMap::<NodeIndex, bool>::set(&mut self.bits, n(x), v > 0);
        SecondaryMap::<NodeIndex, bool>::set(&mut self.hset, n(x), v > 0);
        self.weights[n(x)] = v;
        if v == 0 {
            self.model.remove(&x);
        } else {
            self.model.insert(x, v);
        }
    }
    fn readers<'a>(&'a self, ctx: &mut Ctx, out: &mut Readers<'a>) {
        let full: Vec<(N, u32)> = self.model.iter().map(|(k, v)| (*k, *v)).collect();
        let keys: Vec<N> = self.model.keys().copied().collect();
        let got = |it: &mut dyn Iterator<Item = (NodeIndex, &'a u32)>| -> Vec<(N, u32)> { sorted(it.filter(|(_, v)| **v > 0).map(|(k, v)| (k.index(), *v))) };
        let ones = |it: &mut dyn Iterator<Item = (NodeIndex, &'a bool)>| -> Vec<N> { sorted(it.filter(|(_, v)| **v).map(|(k, _)| k.index())) };
        match ctx.draw(4) {
            0 => {
                let it = || SecondaryMap::iter(&self.dense);
                check_eq!(got(&mut it()), full, "items", "dense map: items");
                out.push(Box::new(Reader::new("dense map", it(), it()).cl().de()));
            }
            1 => {
                let it = || SecondaryMap::<NodeIndex, bool>::iter(&self.bits);
                check_eq!(ones(&mut it()), keys, "items", "bit vector: items");
                out.push(Box::new(Reader::new("bit vector", it(), it()).cl().de()));
            }
            2 => {
                let it = || SecondaryMap::<NodeIndex, bool>::iter(&self.hset);
                check_eq!(ones(&mut it()), keys, "items", "hash set: items");
                out.push(Box::new(Reader::new("hash set", it(), it()).cl()));
            }
            _ => {
                let it = || SecondaryMap::iter(&self.weights.nodes);
                check_eq!(got(&mut it()), full, "items", "weights: items");
                out.push(Box::new(Reader::new("weights", it(), it()).cl().de()));
            }
        }
    }
}
fn lazily<G: Gr>(ctx: &mut Ctx) {
    let sizes: &[usize] = if ctx.chance(10) { &[40] } else { &[5, 8, 14] };
    let mut mix = scene_mix(ctx, sizes);
    if ctx.chance(30) {
        mix = mix.acyclic();
        mix.w[17] = 0;
    }
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    let mut t = Tables::new();
    while ctx.next_step() {
        s.step(ctx);
        t.step(ctx);
        if ctx.chance(12) {
            read(ctx, &s, &t);
        }
    }
    read(ctx, &s, &t);
}
fn subport_readers<'a, V>(ctx: &mut Ctx, v: &'a V, e: &Expected, out: &mut Readers<'a>)
where
    V: MultiView,
    V::LinkEndpoint: EpT,
{
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    let Some(x) = ctx.pick(&nodes).copied() else { return };
    match ctx.draw(3) {
        2 => {
            let want: Vec<_> = v.all_subports(n(x)).collect();
            out.push(Box::new(Reader::new(format!("all_subports({x})"), v.all_subports(n(x)), want).cl()));
        }
        d => {
            let want: Vec<_> = v.subports(n(x), dir(d)).collect();
            out.push(Box::new(Reader::new(format!("subports({x}, {d})"), v.subports(n(x), dir(d)), want).cl()));
        }
    }
}
fn tree_readers<'a>(ctx: &mut Ctx, h: &'a Hierarchy, f: &Forest, nodes: &[N], out: &mut Readers<'a>) {
    if ctx.chance(3) {
        out.push(Box::new(Reader::new("Children::default()", ::portgraph::hierarchy::Children::default(), vec![]).cl().de().ex()));
        out.push(Box::new(Reader::new("Descendants::default()", ::portgraph::hierarchy::Descendants::default(), vec![]).cl()));
    }
    // Prefer parents.
    let big: Vec<N> = nodes.iter().copied().filter(|x| f.kids(*x).len() > 1).collect();
    let x = if ctx.chance(80) { ctx.pick(&big).copied() } else { None };
    let Some(x) = x.or_else(|| ctx.pick(nodes).copied()) else { return };
    if ctx.draw(2) == 0 {
        let want: Vec<NodeIndex> = f.kids(x).iter().map(|y| n(*y)).collect();
        out.push(Box::new(Reader::new(format!("children({x})"), h.children(n(x)), want).cl().de().ex()));
    } else {
        let want: Vec<NodeIndex> = h.descendants(n(x)).collect();
        check_eq!(sorted(want.iter().map(|y| y.index())), sorted(f.descendants(x)), "descendants", "descendants({x})");
        out.push(Box::new(Reader::new(format!("descendants({x})"), h.descendants(n(x)), want).cl()));
    }
}
type Edge = (N, N, (Ep, Ep));
fn edge<E: EpT, R: EdgeRef<NodeId = NodeIndex, EdgeId = (E, E)>>(r: R) -> Edge {
    let id = r.id();
    (r.source().index(), r.target().index(), (id.0.ep(), id.1.ep()))
}
fn edge_readers<'a, V, E: EpT>(ctx: &mut Ctx, v: &'a V, e: &Expected, out: &mut Readers<'a>)
where
    &'a V: IntoNodeIdentifiers<NodeId = NodeIndex, EdgeId = (E, E)> + IntoNeighborsDirected + IntoEdgeReferences + IntoEdges + IntoEdgesDirected,
    <&'a V as IntoEdgeReferences>::EdgeReferences: ExactSizeIterator,
{
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    let all: Vec<Edge> = sorted(e.edges().into_iter().map(|(a, b)| (e.node_of(a.0), e.node_of(b.0), (a, b))));
    let pd = |d: usize| if d == OUT { petgraph::Outgoing } else { petgraph::Incoming };
    let x = ctx.pick(&nodes).copied();
    let d = ctx.draw(2);
    match (ctx.draw(4), x) {
        (1, Some(x)) => {
            let want: Vec<NodeIndex> = v.neighbors_directed(n(x), pd(d)).collect();
            out.push(Box::new(Reader::new(format!("neighbors_directed({x}, {d})"), v.neighbors_directed(n(x), pd(d)), want)));
        }
        (2, Some(x)) => {
            let want: Vec<Edge> = v.edges_directed(n(x), pd(d)).map(edge).collect();
            let model: Vec<Edge> = all.iter().copied().filter(|t| (if d == OUT { t.0 } else { t.1 }) == x).collect();
            check_eq!(sorted(want.clone()), model, "items", "edges_directed({x}, {d}): items");
            out.push(Box::new(Reader::new(format!("edges_directed({x}, {d})"), v.edges_directed(n(x), pd(d)).map(edge as fn(_) -> Edge), want)));
        }
        (3, Some(x)) => {
            let want: Vec<Edge> = v.edges(n(x)).map(edge).collect();
            out.push(Box::new(Reader::new(format!("edges({x})"), v.edges(n(x)).map(edge as fn(_) -> Edge), want)));
        }
        _ => {
            let want: Vec<Edge> = v.edge_references().map(edge).collect();
            check_eq!(sorted(want.clone()), all, "items", "edge_references: items");
            out.push(Box::new(Reader::new("edge_references", v.edge_references().map(edge as fn(_) -> Edge), want).ex()));
        }
    }
}
/// Traversals: the same sources give the same order again.
fn walk_readers<'a, V>(ctx: &mut Ctx, v: V, e: &Expected, pg: Option<&'a PortGraph>, out: &mut Readers<'a>)
where
    V: LinkView + Clone + 'a,
{
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    let d = ctx.draw(2);
    let src = ctx.subset(&nodes, 40);
    let list = || src.iter().map(|x| n(*x));
    match pg {
        Some(g) if ctx.chance(50) => {
            let it = || postorder(g, list(), dir(d));
            out.push(Box::new(Reader::new(format!("postorder({src:?}, {d})"), it(), it())));
        }
        _ => {
            let it = || -> TopoSort<'a, V, HashSet<PortIndex>> { toposort(v.clone(), list(), dir(d)) };
            let want: Vec<_> = it().collect();
            out.push(Box::new(Reader::new(format!("toposort({src:?}, {d})"), it(), want)));
        }
    }
}
fn boundary_readers<'a>(ctx: &mut Ctx, b: &'a Boundary, out: &mut Readers<'a>) {
    match ctx.draw(3) {
        2 => {
            let want: Vec<PortIndex> = b.port_indices().collect();
            out.push(Box::new(Reader::new("port_indices", b.port_indices(), want)));
        }
        d => {
            let want: Vec<P> = if d == IN { b.input_indices() } else { b.output_indices() }.iter().map(|q| q.index()).collect();
            let it = b.ports(dir(d)).map(|q| b.port_index(&q).index());
            out.push(Box::new(Reader::new(format!("boundary ports({d})"), it, want)));
        }
    }
}

fn read<G: Gr>(ctx: &mut Ctx, s: &Scene<G>, t: &Tables) {
    let e = &s.w.m.e;
    ctx.op("read");
    let plan = Plan::draw(ctx, e, &s.f);
    let e2 = plan.expected(e, &s.f);
    ctx.log(|| format!("view: {plan:?}"));
    ctx.state(fingerprint(&e2));
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    let inside = ctx.subset(&nodes, 50);
    let bound = Subgraph::with_nodes(&s.w.g, inside.iter().map(|x| n(*x))).port_boundary().into_owned();
    let multi = (&s.w.g as &dyn Any).downcast_ref::<MultiPortGraph>();
    let pg = (&s.w.g as &dyn Any).downcast_ref::<PortGraph>();
    let m = multi.map(Multi);
    let base = Erased::<G::E>::new(&s.w.g, m.as_ref().map(|m| m as &dyn DynMulti));
    check_view(&s.w.g, e, G::NAME, &[], &[]);
    macro_rules! over {
        ($v:ident) => {{
            let mut readers: Readers = vec![];
            let count = ctx.range(1, 8);
            for _ in 0..count {
                match ctx.draw(11) {
                    0 | 1 => view_readers(ctx, &s.w.g, e, 1, &mut readers),
                    2 | 3 => view_readers(ctx, &$v, &e2, 1, &mut readers),
                    4 => match multi {
                        Some(g) => subport_readers(ctx, g, e, &mut readers),
                        None => view_readers(ctx, &s.w.g, e, 1, &mut readers),
                    },
                    5 => tree_readers(ctx, &s.h, &s.f, &nodes, &mut readers),
                    6 => t.readers(ctx, &mut readers),
                    7 => match (multi, pg) {
                        (Some(g), _) => edge_readers(ctx, g, e, &mut readers),
                        (_, Some(g)) => edge_readers(ctx, g, e, &mut readers),
                        _ => {}
                    },
                    8 => edge_readers(ctx, &$v, &e2, &mut readers),
                    9 => {
                        if ctx.chance(50) {
                            walk_readers(ctx, &$v, &e2, pg, &mut readers)
                        } else {
                            walk_readers(ctx, &s.w.g, e, pg, &mut readers)
                        }
                    }
                    _ => boundary_readers(ctx, &bound, &mut readers),
                }
            }
            
            let budget = ctx.range(4, 60);
            interleave(ctx, readers, budget);
            check_view(&$v, &e2, plan.label(), &[], &[]);
        }};
    }
    match ctx.draw(3) {
        0 => with_view!(&plan, base, &s.h, |v| {
            let mut more: Readers = vec![];
            subport_readers(ctx, &v, &e2, &mut more);
            interleave(ctx, more, 6);
            over!(v)
        }),
        _ => with_view!(&plan, &s.w.g, &s.h, |v| over!(v)),
    }
}
