//! Everything that has an order is asked again, of the same graph and of
//! graphs with the same history elsewhere.

use super::c_algo::{draw_ports, draw_set, ports_it};
use super::c_views::scene_mix;
use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::scene::*;
use crate::{check, fail, with_view};
use ::petgraph::visit::{Bfs, Dfs, DfsPostOrder, GraphBase, IntoEdgeReferences, IntoEdgesDirected, IntoNeighborsDirected, IntoNodeIdentifiers, NodeIndexable, Topo, Visitable};
use ::portgraph::algorithms::*;
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::index::MaybeNodeIndex;
use ::portgraph::render::{DotFormat, MermaidFormat};
use ::portgraph::unmanaged::UnmanagedDenseMap;
use ::portgraph::view::*;
use ::portgraph::*;
use bitvec::vec::BitVec;
use std::any::Any;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;

pub const P27: CheckDef = CheckDef {
    id: "P27",
    f: p27,
    quick_runs: 60_000,
    thorough_runs: 1_200_000,
    about: "a graph with a hierarchy is changed by interleaved clients; at random moments drawn questions whose answers have an order (listings of the graph and of views, traversals, orders, checkers, boundaries, diagrams, copies, compaction) are asked, and asked again: of new views with other caches, in a thread with other hash keys, of a clone, of a restored checkpoint, and of a replica that made the same calls there; all the answers must be the same, in the same order",
    real: "the whole library, petgraph's algorithms over it, std hash maps with different keys",
    stub: "the source of hash keys, the store of checkpoints (memory)",
    assumes: &["answers that are documented as sets (HashSet, HashMap) are compared as sets"],
};
fn p27(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        repeat::<PortGraph>(ctx)
    } else {
        repeat::<MultiPortGraph>(ctx)
    }
}

/// What is asked.
struct Ask {
    what: [bool; 12],
    plan: Plan,
    set: Vec<N>,
    src: Vec<N>,
    nodes: Vec<N>,
    pairs: Vec<(N, N)>,
    ports: (Vec<P>, Vec<P>),
    d: usize,
    acyclic: bool,
}
/// The answers, in order.
#[derive(Default)]
struct Out {
    lines: Vec<(String, String)>,
}
impl Out {
    fn put(&mut self, what: impl Into<String>, x: impl Debug) {
        self.lines.push((what.into(), format!("{x:?}")));
    }
}
fn pairs<E: EpT>(it: impl Iterator<Item = (E, E)>) -> Vec<(Ep, Ep)> {
    it.map(|(a, b)| (a.ep(), b.ep())).collect()
}
fn ids(it: impl Iterator<Item = NodeIndex>) -> Vec<N> {
    it.map(|x| x.index()).collect()
}

/// The queries of views.
fn listing<V>(v: &V, a: &Ask, who: &str, out: &mut Out)
where
    V: LinkView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    out.put(format!("{who}: counts"), (v.is_empty(), v.node_count(), v.port_count(), v.link_count()));
    out.put(format!("{who}: nodes_iter"), v.nodes_iter().collect::<Vec<_>>());
    out.put(format!("{who}: ports_iter"), v.ports_iter().collect::<Vec<_>>());
    for x in a.nodes.iter().map(|x| n(*x)).filter(|x| v.contains_node(*x)) {
        out.put(format!("{who}: ports of {x:?}"), (v.all_ports(x).collect::<Vec<_>>(), v.all_port_offsets(x).collect::<Vec<_>>()));
        out.put(format!("{who}: links of {x:?}"), (pairs(v.all_links(x)), pairs(v.links(x, dir(a.d)))));
        out.put(format!("{who}: neighbours of {x:?}"), (v.all_neighbours(x).collect::<Vec<_>>(), v.neighbours(x, dir(a.d)).collect::<Vec<_>>()));
        for q in v.all_ports(x) {
            out.put(format!("{who}: links of {q:?}"), pairs(v.port_links(q)));
        }
    }
    for (x, y) in a.pairs.iter().map(|(x, y)| (n(*x), n(*y))) {
        if v.contains_node(x) && v.contains_node(y) {
            let c = v.get_connection(x, y).map(|(a, b)| (a.ep(), b.ep()));
            out.put(format!("{who}: connections of {x:?} and {y:?}"), (c, pairs(v.get_connections(x, y))));
        }
    }
}
/// Orders, checkers and boundaries.
fn orders<V>(v: &V, a: &Ask, who: &str, out: &mut Out)
where
    V: LinkView<PortOffsetBase = u16> + Clone,
    V::LinkEndpoint: EpT,
{
    let inside = |xs: &[N]| -> Vec<N> { xs.iter().copied().filter(|x| v.contains_node(n(*x))).collect() };
    let (src, set) = (inside(&a.src), inside(&a.set));
    if a.what[2] {
        let t: TopoSort<_> = toposort(v, node_list(&src), dir(a.d));
        out.put(format!("{who}: toposort from {src:?}"), ids(t));
        let t: TopoSort<_, HashSet<PortIndex>> = toposort(v, node_list(&src), dir(a.d));
        out.put(format!("{who}: toposort with a hash set from {src:?}"), ids(t));
        let t: TopoSort<_, BitVec> = toposort_filtered(v, node_list(&src), dir(a.d), |x| !set.contains(&x.index()), |_, q| q.index() % 5 != 4);
        out.put(format!("{who}: filtered toposort from {src:?}"), ids(t));
    }
    if a.what[3] {
        let sub = Subgraph::with_nodes(v, node_list(&set));
        let b = sub.port_boundary().into_owned();
        out.put(format!("{who}: nodes of the subgraph of {set:?}"), ids(sub.nodes_iter()));
        out.put(format!("{who}: boundary of {set:?}"), (b.input_indices(), b.output_indices()));
        if !set.is_empty() {
            let sub = Subgraph::new_subgraph(v, b);
            out.put(format!("{who}: nodes of the subgraph of the boundary of {set:?}"), ids(sub.nodes_iter()));
        }
        let ok = |q: &&P| v.contains_port(p(**q));
        let some: Vec<PortIndex> = a.ports.0.iter().chain(&a.ports.1).filter(ok).map(|q| p(*q)).collect();
        let b = Boundary::from_ports(v, some.iter().copied());
        out.put(format!("{who}: boundary from {some:?}"), (b.input_indices(), b.output_indices()));
        let all: Vec<(PortIndex, Option<PortIndex>)> = b.inputs().chain(b.outputs()).map(|x| (b.port_index(&x), b.port_indices().next())).collect();
        out.put(format!("{who}: ports of the boundary from {some:?}"), all);
    }
    if a.what[4] && a.acyclic {
        let line = LineConvexChecker::new(v.clone());
        for x in v.nodes_iter() {
            out.put(format!("{who}: lines of {x:?}"), (line.get_position(x), line.get_lines(x)));
        }
        for q in a.ports.0.iter().chain(&a.ports.1).filter(|q| v.contains_port(p(**q))) {
            out.put(format!("{who}: lines at {q}"), line.lines_at_port(p(*q)));
        }
        let mut iv = line.get_intervals_from_nodes(node_list(&set));
        out.put(format!("{who}: intervals of {set:?}"), &iv);
        if let Some(iv) = &mut iv {
            out.put(format!("{who}: nodes in the intervals of {set:?}"), ids(line.nodes_in_intervals(iv)));
            for x in &src {
                let ok = line.try_extend_intervals(iv, n(*x));
                out.put(format!("{who}: intervals of {set:?} extended to {x}"), (ok, &iv));
            }
        }
        let topo = TopoConvexChecker::new(v.clone());
        out.put(format!("{who}: convexity of {set:?}"), (topo.is_node_convex(node_list(&set)), line.is_node_convex(node_list(&set))));
        let (i, o) = &a.ports;
        let inner = |qs: &[P]| -> Vec<P> { qs.iter().copied().filter(|q| v.port_node(p(*q)).is_some_and(|x| set.contains(&x.index()))).collect() };
        let (i, o) = (inner(i), inner(o));
        out.put(format!("{who}: convexity of {set:?} with {i:?} and {o:?}"), topo.is_convex(node_list(&set), ports_it(&i), ports_it(&o)));
    }
}
/// Petgraph's algorithms.
fn pet<'a, V, E: EpT>(v: &'a V, a: &Ask, who: &str, out: &mut Out)
where
    V: LinkView<LinkEndpoint = E> + GraphBase<NodeId = NodeIndex, EdgeId = (E, E)> + Visitable,
    &'a V: IntoNodeIdentifiers<NodeId = NodeIndex, EdgeId = (E, E)>
        + IntoNeighborsDirected
        + IntoEdgeReferences<NodeWeight = (), EdgeWeight = ()>
        + IntoEdgesDirected
        + Visitable<Map = <V as Visitable>::Map>
        + NodeIndexable,
{
    use ::petgraph::visit::EdgeRef;
    out.put(format!("{who}: node identifiers"), v.node_identifiers().collect::<Vec<_>>());
    out.put(format!("{who}: edge references"), v.edge_references().map(|r| (r.source(), r.target(), r.id().0.ep(), r.id().1.ep())).collect::<Vec<_>>());
    for x in a.src.iter().map(|x| n(*x)).filter(|x| v.contains_node(*x)) {
        let pd = dir(a.d).into();
        out.put(format!("{who}: directed neighbours of {x:?}"), v.neighbors_directed(x, pd).collect::<Vec<_>>());
        out.put(format!("{who}: directed edges of {x:?}"), v.edges_directed(x, pd).map(|r| (r.source(), r.target(), r.id().0.ep(), r.id().1.ep())).collect::<Vec<_>>());
        let mut it = Dfs::new(v, x);
        out.put(format!("{who}: Dfs from {x:?}"), ids(std::iter::from_fn(|| it.next(v))));
        let mut it = Bfs::new(v, x);
        out.put(format!("{who}: Bfs from {x:?}"), ids(std::iter::from_fn(|| it.next(v))));
        let mut it = DfsPostOrder::new(v, x);
        out.put(format!("{who}: DfsPostOrder from {x:?}"), ids(std::iter::from_fn(|| it.next(v))));
    }
    let mut it = Topo::new(v);
    out.put(format!("{who}: Topo"), ids(std::iter::from_fn(|| it.next(v))));
    out.put(format!("{who}: components"), ::petgraph::algo::tarjan_scc(v));
}
fn sorted_map(m: HashMap<NodeIndex, NodeIndex>) -> BTreeMap<NodeIndex, NodeIndex> {
    m.into_iter().collect()
}

/// A graph of which everything can be asked.
trait Asked: Gr {
    fn answer(&self, h: &Hierarchy, a: &Ask, warm: &[N]) -> Out;
}
macro_rules! asked {
    ($G:ty) => {
        impl Asked for $G {
            fn answer(&self, h: &Hierarchy, a: &Ask, warm: &[N]) -> Out {
                let mut out = Out::default();
                if a.what[0] {
                    listing(self, a, "graph", &mut out);
                    for x in &a.nodes {
                        out.put(format!("subports of {x}"), self.g_all_subports(*x));
                        out.put(format!("children of {x}"), (h.children(n(*x)).collect::<Vec<_>>(), h.descendants(n(*x)).collect::<Vec<_>>()));
                    }
                }
                if a.what[1] {
                    pet(self, a, "graph", &mut out);
                }
                orders(self, a, "graph", &mut out);
                if a.what[5] {
                    let t = lca(self, h);
                    for (x, y) in &a.pairs {
                        out.put(format!("lca of {x} and {y}"), t.lca(n(*x), n(*y)));
                    }
                }
                if a.what[6] {
                    out.put("dot", self.dot_format().with_hierarchy(h).finish());
                    out.put("mermaid", self.mermaid_format().with_hierarchy(h).finish());
                }
                with_view!(&a.plan, self, h, |v| {
                    // Caches are filled in another order.
                    for x in warm {
                        let _ = v.contains_node(n(*x));
                    }
                    let who = a.plan.label();
                    if a.what[7] {
                        listing(&v, a, who, &mut out);
                    }
                    if a.what[8] {
                        pet(&v, a, who, &mut out);
                    }
                    if !matches!(a.plan, Plan::Sub(_)) || !a.what[3] {
                        orders(&v, a, who, &mut out);
                    }
                    if a.what[9] {
                        out.put("dot of the view", v.dot_format().with_hierarchy(h).finish());
                        out.put("mermaid of the view", v.mermaid_format().with_hierarchy(h).finish());
                    }
                    if a.what[10] {
                        let mut g = self.clone();
                        out.put(format!("{who}: insert_graph"), g.insert_graph(&v).map(sorted_map));
                        listing(&g, a, "graph after insert_graph", &mut out);
                        let r = Subgraph::with_nodes(&mut g, node_list(&a.set)).copy_in_parent().map(sorted_map);
                        out.put(format!("copy_in_parent of {:?}", a.set), r);
                        let mut moved = vec![];
                        g.compact_nodes(|a, b| moved.push((a, b)));
                        out.put("compact_nodes", &moved);
                        moved.clear();
                        let mut moved = vec![];
                        g.compact_ports(|a, b| moved.push((a, b)));
                        out.put("compact_ports", moved);
                        listing(&g, a, "graph after copies and compaction", &mut out);
                    }
                });
                if a.what[11] {
                    if let Some(g) = (self as &dyn Any).downcast_ref::<PortGraph>() {
                        if !a.src.is_empty() {
                            out.put(format!("postorder from {:?}", a.src), ids(postorder(g, node_list(&a.src), dir(a.d))));
                        }
                        for x in &a.src {
                            let t: DominatorTree<UnmanagedDenseMap<NodeIndex, MaybeNodeIndex<u32>>> = dominators(g, n(*x), dir(a.d));
                            out.put(format!("dominators from {x}"), a.nodes.iter().map(|y| t.immediate_dominator(n(*y))).collect::<Vec<_>>());
                        }
                    }
                }
                out
            }
        }
    };
}
asked!(PortGraph);
asked!(MultiPortGraph);

fn repeat<G: Asked>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[6, 9, 14]).at_most(48);
    for k in [14, 15, 16] {
        mix.w[k] = 0;
    }
    let acyclic = ctx.chance(60);
    if acyclic {
        mix = mix.acyclic();
        mix.w[17] = 0;
    }
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    // The replica starts where the calls are recorded.
    let start = s.w.g.clone();
    s.w.calls = Some(vec![]);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(8) {
            again(ctx, &s, &start, acyclic);
        }
    }
    again(ctx, &s, &start, acyclic);
}
fn again<G: Asked>(ctx: &mut Ctx, s: &Scene<G>, start: &G, acyclic: bool) {
    let e = &s.w.m.e;
    let all: Vec<N> = e.nodes.keys().copied().collect();
    ctx.state(fingerprint(e));
    let all_kinds = ctx.chance(25);
    let mut nodes = ctx.subset(&all, if all.len() > 20 { 20 } else { 70 });
    ctx.shuffle(&mut nodes);
    let set = draw_set(ctx, e);
    let d = 1 - ctx.draw(2);
    let mut src = match ctx.draw(2) {
        0 => all.iter().copied().filter(|x| e.node_links(*x, 1 - d).is_empty()).collect(),
        _ => ctx.subset(&all, 30),
    };
    ctx.shuffle(&mut src);
    src.truncate(8);
    let mut ask = Ask {
        what: [false; 12],
        plan: Plan::draw(ctx, e, &s.f),
        ports: draw_ports(ctx, e, &set),
        pairs: (0..6).filter_map(|_| Some((ctx.pick(&all).copied()?, ctx.pick(&all).copied()?))).collect(),
        set,
        src,
        nodes,
        d,
        acyclic,
    };
    for w in &mut ask.what {
        *w = all_kinds || ctx.chance(40);
    }
    let mut warm = all.clone();
    ctx.shuffle(&mut warm);
    let first = s.w.g.answer(&s.h, &ask, &[]);
    ctx.log(|| format!("{:?}: {} answers, over {:?}", ask.what, first.lines.len(), ask.plan));
    let compare = |other: Out, who: &str| {
        for (a, b) in first.lines.iter().zip(&other.lines) {
            if a != b {
                fail!(a.0.split(':').next().unwrap_or(""), "{}: {} first, but {} {who} ({})", a.0, a.1, b.1, b.0);
            }
        }
        check!(first.lines.len() == other.lines.len(), "answers", "{} answers first, {} {who}", first.lines.len(), other.lines.len());
    };
    for _ in 0..2 {
        let kind = ctx.draw(5);
        let names = ["asked again", "in a thread with other hash keys", "by a clone", "by a restored checkpoint", "by a replica that made the same calls"];
        ctx.op(names[kind]);
        if kind == 0 {
            compare(s.w.g.answer(&s.h, &ask, &warm), names[kind]);
            continue;
        }
        ctx.fault("other hash seeds");
        let seed = ctx.hash_seed ^ 0x7171_0000 ^ ctx.draw(1 << 16) as u64;
        let c = *ctx.pick(&CODECS).unwrap();
        let calls = s.w.calls.as_deref().unwrap_or_default();
        if kind == 3 {
            ctx.fault("restart");
        }
        let got = std::thread::scope(|sc| {
            let (ask, warm) = (&ask, &warm);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    seed_thread(seed);
                    match kind {
                        1 => s.w.g.answer(&s.h, ask, warm),
                        2 => s.w.g.clone().answer(&s.h.clone(), ask, warm),
                        3 => {
                            let (g, h): (G, Hierarchy) = (decode(c, &encode(c, &s.w.g)), decode(c, &encode(c, &s.h)));
                            g.answer(&h, ask, warm)
                        }
                        _ => {
                            let mut g: G = decode(c, &encode(c, start));
                            for x in calls {
                                x.apply(&mut g);
                            }
                            g.answer(&decode(c, &encode(c, &s.h)), ask, warm)
                        }
                    }
                })
                .expect("spawn simulated thread")
                .join()
                .unwrap_or_else(|_| fail!("panic elsewhere", "{:?}: the answers panic {}", ask.what, names[kind]))
        });
        compare(got, names[kind]);
    }
}
