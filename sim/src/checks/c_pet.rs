//! Graphs and views as seen through petgraph.

use super::c_algo::idoms;
use super::c_views::scene_mix;
use super::CheckDef;
use crate::engine::*;
use crate::gr::*;
use crate::laws::*;
use crate::model::*;
use crate::scene::*;
use crate::{check, check_eq, with_view};
use ::portgraph::view::LinkView;
use ::portgraph::{Direction, MultiPortGraph, NodeIndex, PortGraph};
use ::petgraph;
use petgraph::algo;
use petgraph::visit::*;
use std::collections::{BTreeMap, BTreeSet};

pub const P21: CheckDef = CheckDef {
    id: "P21",
    f: p21,
    quick_runs: 150_000,
    thorough_runs: 3_000_000,
    about: "a graph and its hierarchy are changed by interleaved clients through crashes and restarts; at random moments the graph, a drawn view of it, or a view of a custom graph is used through petgraph's traits: node, neighbour and edge listings are pulled by interleaved lazy readers, visit maps undergo drawn sequences of visits and resets, adjacency matrices are read, and petgraph's algorithms run over them, everything being compared with the model",
    real: "the petgraph trait implementations of PortGraph, MultiPortGraph, FilteredGraph, Region, FlatRegion and Subgraph; petgraph's traversals and algorithms",
    stub: "filters and the custom graph behind views (simulated caller code)",
    assumes: &["the reference model states the intended behaviour", "petgraph's algorithms are right about graphs that keep the trait contracts"],
};
fn p21(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        graphs::<PortGraph>(ctx)
    } else {
        graphs::<MultiPortGraph>(ctx)
    }
}
/// What both graph types can do here.
pub trait Pet: Gr {
    fn pet(&self, ctx: &mut Ctx, e: &Expected, who: &str);
}
impl Pet for PortGraph {
    fn pet(&self, ctx: &mut Ctx, e: &Expected, who: &str) {
        pet(ctx, self, e, who)
    }
}
impl Pet for MultiPortGraph {
    fn pet(&self, ctx: &mut Ctx, e: &Expected, who: &str) {
        pet(ctx, self, e, who)
    }
}
fn graphs<G: Pet>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[5, 8, 12]);
    if ctx.chance(30) {
        mix = mix.acyclic();
        mix.w[17] = 0;
    }
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(10) {
            through(ctx, &s);
        }
    }
    through(ctx, &s);
}
pub fn through<G: Pet>(ctx: &mut Ctx, s: &Scene<G>) {
    let e = &s.w.m.e;
    match ctx.draw(3) {
        0 => {
            ctx.op(G::NAME);
            s.w.g.pet(ctx, e, G::NAME)
        }
        k => {
            let plan = Plan::draw(ctx, e, &s.f);
            let e2 = plan.expected(e, &s.f);
            ctx.op(plan.label());
            ctx.log(|| format!("view: {plan:?}"));
            if k == 1 {
                let base = Erased::<G::E>::new(&s.w.g, None);
                with_view!(&plan, base, &s.h, |v| pet(ctx, &v, &e2, plan.label()));
            } else {
                with_view!(&plan, &s.w.g, &s.h, |v| pet(ctx, &v, &e2, plan.label()));
            }
        }
    }
}

type Edge = (N, N, (Ep, Ep));
fn edge<E: EpT, R: EdgeRef<NodeId = NodeIndex, EdgeId = (E, E)>>(r: R) -> Edge {
    let id = r.id();
    (r.source().index(), r.target().index(), (id.0.ep(), id.1.ep()))
}
fn pet<'a, V, E: EpT>(ctx: &mut Ctx, v: &'a V, e: &Expected, who: &str)
where
    V: LinkView<LinkEndpoint = E> + GraphBase<NodeId = NodeIndex, EdgeId = (E, E)> + GraphProp<EdgeType = petgraph::Directed>,
    V: NodeIndexable + petgraph::visit::NodeCount + EdgeCount + Visitable + GetAdjacencyMatrix,
    V: Data<NodeWeight = (), EdgeWeight = ()>,
    &'a V: IntoNodeIdentifiers<NodeId = NodeIndex, EdgeId = (E, E)>
        + IntoNodeReferences
        + IntoNeighbors
        + IntoNeighborsDirected
        + IntoEdgeReferences<NodeWeight = (), EdgeWeight = ()>
        + IntoEdges
        + IntoEdgesDirected
        + Visitable<Map = <V as Visitable>::Map>
        + NodeIndexable
        + GetAdjacencyMatrix,
    <&'a V as IntoEdgeReferences>::EdgeReferences: ExactSizeIterator,
{
    ctx.state(fingerprint(e));
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    let edges: Vec<Edge> = sorted(e.edges().into_iter().map(|(a, b)| (e.node_of(a.0), e.node_of(b.0), (a, b))));
    let of = |x: N, d: usize| -> Vec<Edge> { edges.iter().copied().filter(|t| (if d == OUT { t.0 } else { t.1 }) == x).collect() };
    let ends = |x: N, d: usize| -> Vec<N> { sorted(of(x, d).iter().map(|t| if d == OUT { t.1 } else { t.0 })) };
    let pd = |d: usize| if d == OUT { petgraph::Outgoing } else { petgraph::Incoming };
    for d in [IN, OUT] {
        let x: petgraph::Direction = dir(d).into();
        check_eq!(x, pd(d), "direction", "conversion of directions");
        check_eq!(Direction::from(x), dir(d), "direction", "conversion of directions");
    }
    // Counts and bounds.
    check!(v.is_directed(), "is_directed", "{who}: is_directed");
    check_eq!(petgraph::visit::NodeCount::node_count(v), nodes.len(), "node_count", "{who}: node_count");
    check_eq!(EdgeCount::edge_count(v), edges.len(), "edge_count", "{who}: edge_count");
    let bound = NodeIndexable::node_bound(v);
    let mut seen = BTreeSet::new();
    for x in &nodes {
        let i = NodeIndexable::to_index(v, n(*x));
        check!(i < bound, "node_bound", "{who}: node {x} has index {i}, but the bound is {bound}");
        check!(seen.insert(i), "to_index", "{who}: two nodes have index {i}");
        check_eq!(NodeIndexable::from_index(v, i).index(), *x, "from_index", "{who}: from_index({i})");
    }
    // Listings.
    check_eq!(sorted(ix(v.node_identifiers())), nodes, "node_identifiers", "{who}: node_identifiers");
    check_eq!(sorted(v.node_references().map(|r| NodeRef::id(&r).index())), nodes, "node_references", "{who}: node_references");
    check_eq!(sorted(v.edge_references().map(edge)), edges, "edge_references", "{who}: edge_references");
    check_eq!(v.edge_references().len(), edges.len(), "edge_references", "{who}: length of edge_references");
    check_eq!(v.edge_references().count(), edges.len(), "edge_references", "{who}: count of edge_references");
    for x in &nodes {
        let nx = n(*x);
        check_eq!(sorted(ix(v.neighbors(nx))), ends(*x, OUT), "neighbors", "{who}: neighbors({x})");
        check_eq!(sorted(v.edges(nx).map(edge)), of(*x, OUT), "edges", "{who}: edges({x})");
        check_eq!(v.edges(nx).count(), of(*x, OUT).len(), "edges", "{who}: number of edges({x})");
        for d in [IN, OUT] {
            check_eq!(sorted(ix(v.neighbors_directed(nx, pd(d)))), ends(*x, d), "neighbors_directed", "{who}: neighbors_directed({x}, {d})");
            check_eq!(sorted(v.edges_directed(nx, pd(d)).map(edge)), of(*x, d), "edges_directed", "{who}: edges_directed({x}, {d})");
        }
    }
    // Lazy readers.
    {
        let mut readers: Vec<Box<dyn Step<'a> + 'a>> = vec![];
        for _ in 0..3 {
            let x = ctx.pick(&nodes).copied();
            let d = ctx.draw(2);
            match (ctx.draw(5), x) {
                (1, Some(x)) => {
                    let want: Vec<NodeIndex> = v.neighbors_directed(n(x), pd(d)).collect();
                    readers.push(Box::new(Reader::new("neighbors_directed", v.neighbors_directed(n(x), pd(d)), want)));
                }
                (2, Some(x)) => {
                    let want: Vec<Edge> = v.edges_directed(n(x), pd(d)).map(edge).collect();
                    readers.push(Box::new(Reader::new("edges_directed", v.edges_directed(n(x), pd(d)).map(edge as fn(_) -> Edge), want)));
                }
                (3, _) => {
                    let want: Vec<NodeIndex> = v.node_identifiers().collect();
                    readers.push(Box::new(Reader::new("node_identifiers", v.node_identifiers(), want)));
                }
                _ => {
                    let want: Vec<Edge> = v.edge_references().map(edge).collect();
                    readers.push(Box::new(Reader::new("edge_references", v.edge_references().map(edge as fn(_) -> Edge), want).ex()));
                }
            }
        }
        interleave(ctx, readers, 16);
    }
    // Adjacency.
    let m = GetAdjacencyMatrix::adjacency_matrix(v);
    let succ = e.succ();
    for a in &nodes {
        for b in &nodes {
            check_eq!(GetAdjacencyMatrix::is_adjacent(v, &m, n(*a), n(*b)), succ[a].contains(b), "is_adjacent", "{who}: is_adjacent({a}, {b})");
        }
    }
    visits(ctx, v, &nodes, who);
    algorithms(ctx, v, e, &nodes, who);
}
/// Visit maps.
fn visits<V: Visitable<NodeId = NodeIndex>>(ctx: &mut Ctx, v: &V, nodes: &[N], who: &str) {
    let mut maps = vec![(v.visit_map(), BTreeSet::<N>::new()), (v.visit_map(), BTreeSet::new())];
    for _ in 0..ctx.range(2, 20) {
        let Some(x) = ctx.pick(nodes).copied() else { break };
        let k = ctx.draw(2);
        let (map, set) = &mut maps[k];
        match ctx.draw(10) {
            0..=4 => check_eq!(map.visit(n(x)), set.insert(x), "visit", "{who}: visit({x})"),
            5 | 6 => check_eq!(map.unvisit(n(x)), set.remove(&x), "unvisit", "{who}: unvisit({x})"),
            7 => {
                v.reset_map(map);
                set.clear();
            }
            _ => {}
        }
        for y in nodes {
            check_eq!(map.is_visited(&n(*y)), set.contains(y), "is_visited", "{who}: is_visited({y})");
        }
    }
}
fn algorithms<'a, V, E: EpT>(ctx: &mut Ctx, v: &'a V, e: &Expected, nodes: &[N], who: &str)
where
    V: LinkView<LinkEndpoint = E> + GraphBase<NodeId = NodeIndex, EdgeId = (E, E)> + Visitable,
    &'a V: IntoNodeIdentifiers<NodeId = NodeIndex, EdgeId = (E, E)>
        + IntoNodeReferences
        + IntoNeighborsDirected
        + IntoEdgeReferences<NodeWeight = (), EdgeWeight = ()>
        + IntoEdgesDirected
        + Visitable<Map = <V as Visitable>::Map>
        + NodeIndexable,
{
    let succ = e.succ();
    let reach: BTreeMap<N, BTreeSet<N>> = nodes.iter().map(|x| (*x, e.reachable(&[*x]))).collect();
    let cyclic = nodes.iter().any(|x| succ[x].iter().any(|y| reach[y].contains(x)));
    let start = ctx.pick(nodes).copied();
    // Strongly connected components, as sets.
    let comps = || -> BTreeSet<Vec<N>> { nodes.iter().map(|x| nodes.iter().copied().filter(|y| reach[x].contains(y) && reach[y].contains(x)).collect()).collect() };
    let as_sets = |c: Vec<Vec<NodeIndex>>| -> (usize, BTreeSet<Vec<N>>) { (c.len(), c.into_iter().map(|c| sorted(ix(c.into_iter()))).collect()) };
    for _ in 0..2 {
        let k = ctx.draw(13);
        match (k, start) {
            (0, _) => check_eq!(algo::is_cyclic_directed(v), cyclic, "is_cyclic_directed", "{who}: is_cyclic_directed"),
            (1, _) => match algo::toposort(v, None) {
                Ok(order) => {
                    check!(!cyclic, "toposort", "{who}: toposort of a cyclic graph");
                    let at: BTreeMap<N, usize> = order.iter().enumerate().map(|(i, x)| (x.index(), i)).collect();
                    check_eq!((at.keys().copied().collect::<Vec<_>>(), order.len()), (nodes.to_vec(), nodes.len()), "toposort", "{who}: nodes of toposort");
                    for (a, b) in e.node_edges() {
                        check!(at[&a] < at[&b], "toposort", "{who}: toposort lists {b} before {a}");
                    }
                }
                Err(_) => check!(cyclic, "toposort", "{who}: toposort found a cycle in an acyclic graph"),
            },
            (2, _) => {
                let want = comps();
                check_eq!(as_sets(algo::tarjan_scc(v)), (want.len(), want.clone()), "tarjan_scc", "{who}: tarjan_scc");
            }
            (3, _) => {
                let want = comps();
                check_eq!(as_sets(algo::kosaraju_scc(v)), (want.len(), want.clone()), "kosaraju_scc", "{who}: kosaraju_scc");
            }
            (4, Some(x)) => {
                for y in nodes {
                    check_eq!(algo::has_path_connecting(v, n(x), n(*y), None), reach[&x].contains(y), "has_path_connecting", "{who}: has_path_connecting({x}, {y})");
                }
            }
            (5, Some(x)) => {
                let mut it = Dfs::new(v, n(x));
                let got: Vec<N> = std::iter::from_fn(|| it.next(v)).map(|y| y.index()).collect();
                check_eq!(sorted(got), reach[&x].iter().copied().collect::<Vec<_>>(), "Dfs", "{who}: Dfs from {x}");
                // Again, elsewhere.
                if let Some(y) = ctx.pick(nodes).copied() {
                    it.reset(v);
                    it.move_to(n(y));
                    let got: Vec<N> = std::iter::from_fn(|| it.next(v)).map(|y| y.index()).collect();
                    check_eq!(sorted(got), reach[&y].iter().copied().collect::<Vec<_>>(), "Dfs", "{who}: Dfs moved to {y}");
                }
            }
            (6, Some(x)) => {
                let mut it = Bfs::new(v, n(x));
                let got: Vec<N> = std::iter::from_fn(|| it.next(v)).map(|y| y.index()).collect();
                check_eq!(sorted(got), reach[&x].iter().copied().collect::<Vec<_>>(), "Bfs", "{who}: Bfs from {x}");
            }
            (7, Some(x)) => {
                let mut it = DfsPostOrder::new(Reversed(v), n(x));
                let got: Vec<N> = std::iter::from_fn(|| it.next(Reversed(v))).map(|y| y.index()).collect();
                let want: Vec<N> = nodes.iter().copied().filter(|y| reach[y].contains(&x)).collect();
                check_eq!(sorted(got), want, "DfsPostOrder", "{who}: reversed DfsPostOrder from {x}");
            }
            (8, _) => {
                let mut it = Topo::new(v);
                let got: Vec<N> = std::iter::from_fn(|| it.next(v)).map(|y| y.index()).collect();
                let set: BTreeSet<N> = got.iter().copied().collect();
                check_eq!(set.len(), got.len(), "Topo", "{who}: repeated nodes in Topo: {got:?}");
                let want: BTreeSet<N> = nodes.iter().copied().filter(|x| !nodes.iter().any(|y| reach[y].contains(x) && succ[y].iter().any(|z| reach[z].contains(y)))).collect();
                check_eq!(set, want, "Topo", "{who}: nodes of Topo");
            }
            (9, Some(x)) => {
                let got: BTreeMap<N, usize> = algo::dijkstra(v, n(x), None, |_| 1usize).into_iter().map(|(k, v)| (k.index(), v)).collect();
                let mut want = BTreeMap::from([(x, 0)]);
                let mut front = vec![x];
                while !front.is_empty() {
                    let mut next = vec![];
                    for y in front {
                        for z in &succ[&y] {
                            if !want.contains_key(z) {
                                want.insert(*z, want[&y] + 1);
                                next.push(*z);
                            }
                        }
                    }
                    front = next;
                }
                check_eq!(got, want, "dijkstra", "{who}: distances from {x}");
            }
            (10, Some(x)) => {
                let d = algo::dominators::simple_fast(v, n(x));
                let want = idoms(e, x, OUT);
                for y in nodes {
                    check_eq!(d.immediate_dominator(n(*y)).map(|z| z.index()), want.get(y).copied(), "simple_fast", "{who}: immediate dominator of {y} from {x}");
                }
            }
            (11, _) => {
                // As an undirected graph: a forest has no repeated edge and no
                // cycle.
                let mut parent: BTreeMap<N, N> = nodes.iter().map(|x| (*x, *x)).collect();
                fn find(p: &BTreeMap<N, N>, mut x: N) -> N {
                    while p[&x] != x {
                        x = p[&x];
                    }
                    x
                }
                let mut loops = false;
                let mut kept = 0;
                for (a, b) in e.node_edges() {
                    let (a, b) = (find(&parent, a), find(&parent, b));
                    if a == b {
                        loops = true;
                    } else {
                        parent.insert(a, b);
                        kept += 1;
                    }
                }
                check_eq!(algo::is_cyclic_undirected(v), loops, "is_cyclic_undirected", "{who}: is_cyclic_undirected");
                let tree = algo::min_spanning_tree(v).filter(|x| matches!(x, petgraph::data::Element::Edge { .. })).count();
                check_eq!(tree, kept, "min_spanning_tree", "{who}: edges of a spanning forest");
            }
            (12, _) => {
                let ok: BTreeSet<N> = ctx.subset(nodes, 70).into_iter().collect();
                let f = petgraph::visit::NodeFiltered::from_fn(v, |x: NodeIndex| ok.contains(&x.index()));
                let mut got: Vec<(N, N)> = vec![];
                for r in (&f).edge_references() {
                    got.push((r.source().index(), r.target().index()));
                }
                let want = sorted(e.node_edges().into_iter().filter(|(a, b)| ok.contains(a) && ok.contains(b)));
                check_eq!(sorted(got), want, "filtered edges", "{who}: edges among {ok:?}");
            }
            _ => {}
        }
    }
}
