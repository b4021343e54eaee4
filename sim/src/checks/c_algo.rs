//! Traversals, dominators and convexity over graphs and views.

use super::c_views::{is_convex, scene_mix, view_readers};
use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::laws::*;
use crate::model::*;
use crate::scene::*;
use crate::seam::tick;
use crate::{check, check_eq, with_view};
use ::portgraph::algorithms::convex::LineIntervals;
use ::portgraph::algorithms::*;
use ::portgraph::boundary::HasBoundary;
use ::portgraph::index::MaybeNodeIndex;
use ::portgraph::unmanaged::UnmanagedDenseMap;
use ::portgraph::view::*;
use ::portgraph::*;
use bitvec::vec::BitVec;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// The nodes and ports that the filters of a traversal accept.
#[derive(Clone, Debug)]
pub struct Accept {
    pub filtered: bool,
    pub sets: Sets,
}
impl Accept {
    pub fn draw(ctx: &mut Ctx, e: &Expected) -> Accept {
        let nodes: BTreeSet<N> = e.nodes.keys().copied().collect();
        let ports: BTreeSet<P> = e.ports.keys().copied().collect();
        let kind = ctx.draw(4);
        if kind == 0 {
            return Accept { filtered: false, sets: Sets { nodes, ports } };
        }
        let mut sets = Sets { nodes, ports };
        if kind != 1 {
            let v: Vec<N> = sets.nodes.iter().copied().collect();
            let pct = *ctx.pick(&[85, 60]).unwrap();
            sets.nodes = ctx.subset(&v, pct).into_iter().collect();
        }
        if kind != 2 {
            let v: Vec<P> = sets.ports.iter().copied().collect();
            let pct = *ctx.pick(&[85, 60]).unwrap();
            sets.ports = ctx.subset(&v, pct).into_iter().collect();
        }
        Accept { filtered: true, sets }
    }
    pub fn node(&self, x: N) -> bool {
        self.sets.nodes.contains(&x)
    }
    /// Whether a link may be followed.
    pub fn open(&self, e: &Expected, a: Ep, b: Ep) -> bool {
        self.sets.ports.contains(&a.0) && self.sets.ports.contains(&b.0) && self.node(e.node_of(a.0)) && self.node(e.node_of(b.0))
    }
    /// What is left of the graph.
    pub fn rest(&self, e: &Expected) -> Expected {
        e.restrict(|x| self.node(x), |a, b| self.open(e, a, b))
    }
}

// ---- topological order

trait TopoDyn {
    fn pull(&mut self) -> Option<NodeIndex>;
    fn add(&mut self, v: &[N]);
    fn remaining(&self) -> Vec<P>;
    fn hint(&self) -> (usize, Option<usize>);
}
impl<G: LinkView, M: SecondaryMap<PortIndex, bool>> TopoDyn for TopoSort<'_, G, M> {
    fn pull(&mut self) -> Option<NodeIndex> {
        self.next()
    }
    fn add(&mut self, v: &[N]) {
        self.add_sources(node_list(v))
    }
    fn remaining(&self) -> Vec<P> {
        px(self.ports_remaining())
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.size_hint()
    }
}

/// A topological traversal that is checked while it runs.
struct Sorted<'a> {
    it: Box<dyn TopoDyn + 'a>,
    e: &'a Expected,
    acc: Accept,
    d: usize,
    sources: BTreeSet<N>,
    seen: BTreeSet<N>,
    hints: Vec<(usize, (usize, Option<usize>))>,
    name: String,
    late: usize,
    ended: usize,
}
impl<'a> Sorted<'a> {
    fn start<G>(ctx: &mut Ctx, g: G, e: &'a Expected, who: &str) -> Self
    where
        G: LinkView + Clone + 'a,
    {
        let acc = Accept::draw(ctx, e);
        let d = 1 - ctx.draw(2);
        let all: Vec<N> = e.nodes.keys().copied().collect();
        let mut src: Vec<N> = match ctx.draw(4) {
            // All the nodes without predecessors, as the library does.
            0 | 1 => all.iter().copied().filter(|x| e.node_links(*x, 1 - d).is_empty()).collect(),
            2 => ctx.subset(&all, 30),
            _ => ctx.pick(&all).copied().into_iter().collect(),
        };
        if ctx.chance(30) {
            ctx.shuffle(&mut src);
            if let Some(x) = ctx.pick(&src).copied() {
                src.push(x);
            }
        }
        let map = ctx.draw(6);
        let name = format!("toposort in direction {d} from {src:?} (map {map}, filters {}) over {who}", acc.filtered);
        let (a, b) = (acc.sets.clone(), acc.sets.clone());
        let nf = move |x: NodeIndex| node_in(x, &a);
        let pf = move |_: NodeIndex, q: PortIndex| port_in(q, &b);
        macro_rules! make {
            ($m:ty) => {{
                let t: TopoSort<'a, G, $m> = if acc.filtered {
                    toposort_filtered(g, node_list(&src), dir(d), nf, pf)
                } else {
                    toposort(g, node_list(&src), dir(d))
                };
                Box::new(t) as Box<dyn TopoDyn + 'a>
            }};
        }
        let it = match map {
            0 | 1 => make!(BitVec),
            2 => make!(HashSet<PortIndex>),
            3 => make!(SimMap<PortIndex, bool, Falsy>),
            4 => make!(SimMap<PortIndex, bool, Truthy>),
            _ => make!(UnmanagedDenseMap<PortIndex, bool>),
        };
        let sources = src.iter().copied().collect();
        let late = ctx.draw(3);
        Sorted { it, e, acc, d, sources, seen: BTreeSet::new(), hints: vec![], name, late, ended: 0 }
    }
    fn links_into(&self, x: N) -> Vec<(Ep, Ep)> {
        self.e.node_links(x, 1 - self.d)
    }
    fn end(&self, ctx: &mut Ctx) {
        let (e, name) = (self.e, &self.name);
        for x in &self.sources {
            check!(!self.acc.node(*x) || self.seen.contains(x), "lost source", "{name}: source {x} was never returned");
        }
        for x in e.nodes.keys().filter(|x| self.acc.node(**x) && !self.seen.contains(x)) {
            let links = self.links_into(*x);
            let open = |l: &(Ep, Ep)| self.acc.open(e, l.0, l.1) && self.seen.contains(&e.node_of(l.1 .0));
            let ready = links.iter().any(open) && links.iter().all(|l| open(l) || !self.acc.sets.ports.contains(&l.0 .0));
            check!(!ready, "lost node", "{name}: all the predecessors of {x} were returned, but {x} was not");
        }
        let total = self.seen.len();
        for (at, (lo, hi)) in &self.hints {
            let left = total - at;
            check!(*lo <= left && hi.is_none_or(|h| h >= left), "size_hint", "{name}: size_hint was {:?} when {left} nodes were left", (lo, hi));
        }
        if !self.acc.filtered {
            let rest: BTreeSet<P> = self.it.remaining().into_iter().collect();
            for (x, ports) in &e.nodes {
                if self.seen.contains(x) {
                    continue;
                }
                for q in &ports[1 - self.d] {
                    let waits = e.port_links(*q).iter().any(|(_, b)| !self.seen.contains(&e.node_of(b.0)));
                    check!(!waits || rest.contains(q), "ports_remaining", "{name}: port {q} waits for a node that was not returned, but is not remaining");
                }
            }
            if e.nodes.len() == total {
                check!(rest.is_empty(), "ports_remaining", "{name}: all nodes were returned, but the ports {rest:?} remain");
            } else {
                ctx.probe("topological order stopped by a cycle or a missing source");
            }
        }
    }
    fn remaining(&self) {
        if self.acc.filtered {
            return;
        }
        let rest = self.it.remaining();
        let set: BTreeSet<P> = rest.iter().copied().collect();
        check_eq!(set.len(), rest.len(), "ports_remaining", "{}: repeated ports", self.name);
        for (x, ports) in &self.e.nodes {
            for q in &ports[self.d] {
                check_eq!(set.contains(q), !self.seen.contains(x), "ports_remaining", "{}: port {q} of node {x} remains, where the nodes returned are {:?}", self.name, self.seen);
            }
            if self.seen.contains(x) {
                for q in &ports[1 - self.d] {
                    check!(!set.contains(q), "ports_remaining", "{}: port {q} of the returned node {x} remains", self.name);
                }
            }
        }
    }
}
impl<'a> Step<'a> for Sorted<'a> {
    fn name(&self) -> &str {
        &self.name
    }
    fn fork(&self) -> Option<Box<dyn Step<'a> + 'a>> {
        None
    }
    fn step(&mut self, ctx: &mut Ctx) -> bool {
        let all: Vec<N> = self.e.nodes.keys().copied().collect();
        if self.late > 0 && !all.is_empty() && ctx.chance(12) {
            self.late -= 1;
            let k = ctx.range(1, 2);
            let v: Vec<N> = (0..k).map(|_| *ctx.pick(&all).unwrap()).collect();
            self.it.add(&v);
            let name = &self.name;
            ctx.log(|| format!("  {name}: add sources {v:?}"));
            ctx.probe("sources added while running");
            self.sources.extend(v);
            self.ended = 0;
        }
        if ctx.chance(20) {
            self.remaining();
        }
        self.hints.push((self.seen.len(), self.it.hint()));
        let got = self.it.pull();
        let (e, name) = (self.e, &self.name);
        ctx.log(|| format!("  {name}: {got:?}"));
        match got {
            None => {
                self.ended += 1;
                if self.ended == 1 {
                    self.end(ctx);
                }
                self.ended < 3
            }
            Some(x) => {
                let x = x.index();
                check!(self.ended == 0, "not fused", "{name}: returned {x} after the end");
                check!(e.nodes.contains_key(&x), "foreign node", "{name}: returned {x}, which is not a node");
                check!(self.acc.node(x), "filtered node", "{name}: returned {x}, which the filter rejects");
                if !self.sources.contains(&x) {
                    let open: Vec<N> = self.links_into(x).into_iter().filter(|l| self.acc.open(e, l.0, l.1)).map(|l| e.node_of(l.1 .0)).collect();
                    for y in &open {
                        check!(self.seen.contains(y), "order", "{name}: returned {x} before {y}, which links to it");
                    }
                    check!(!open.is_empty(), "order", "{name}: returned {x}, which is not a source and cannot be reached");
                }
                check!(self.seen.insert(x), "repeated node", "{name}: returned {x} twice");
                true
            }
        }
    }
}

// ---- post-order

fn dfs(rest: &Expected, x: N, d: usize, seen: &mut BTreeSet<N>, out: &mut Vec<NodeIndex>) {
    if !seen.insert(x) {
        return;
    }
    for q in &rest.nodes[&x][d] {
        for (_, b) in rest.port_links(*q) {
            dfs(rest, rest.node_of(b.0), d, seen, out);
        }
    }
    out.push(n(x));
}
pub fn post<'a>(ctx: &mut Ctx, g: &'a PortGraph, e: &'a Expected) -> Box<dyn Step<'a> + 'a> {
    let acc = Accept::draw(ctx, e);
    let d = 1 - ctx.draw(2);
    let all: Vec<N> = e.nodes.keys().copied().collect();
    let pct = *ctx.pick(&[10, 30, 80]).unwrap();
    let mut src = ctx.subset(&all, pct);
    src.extend(ctx.pick(&all).copied());
    ctx.shuffle(&mut src);
    let rest = acc.rest(e);
    let (mut seen, mut want) = (BTreeSet::new(), vec![]);
    for x in src.iter().filter(|x| acc.node(**x)) {
        dfs(&rest, *x, d, &mut seen, &mut want);
    }
    let name = format!("postorder in direction {d} from {src:?} (filters {})", acc.filtered);
    let it = if acc.filtered {
        let (a, b) = (acc.sets.clone(), acc.sets);
        postorder_filtered(g, node_list(&src), dir(d), move |x| node_in(x, &a), move |_, q| port_in(q, &b))
    } else {
        postorder(g, node_list(&src), dir(d))
    };
    Box::new(Reader::new(name, it, want))
}

pub const P16: CheckDef = CheckDef {
    id: "P16",
    f: p16,
    quick_runs: 200_000,
    thorough_runs: 4_000_000,
    about: "a graph is changed by interleaved clients through crashes and restarts; at random moments several topological traversals (over the graph, custom graphs and views, any workspace map, both directions, drawn filters and sources) and post-order traversals are started and pulled in a random schedule, with sources added and other readers in between, and every item is checked against the model when it is returned",
    real: "toposort, toposort_filtered, TopoSort, postorder, postorder_filtered, the graphs and views underneath",
    stub: "filters, source iterators and custom graphs (simulated caller code)",
    assumes: &["the reference model states the intended behaviour", "filters answer consistently during a traversal"],
};
fn p16(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        traversals::<PortGraph>(ctx)
    } else {
        traversals::<MultiPortGraph>(ctx)
    }
}
fn traversals<G: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[6, 9, 14]);
    if ctx.chance(60) {
        mix = mix.acyclic();
        mix.w[17] = 0;
    }
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(15) {
            traverse(ctx, &s);
        }
    }
    traverse(ctx, &s);
}
pub fn traverse<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    let e = &s.w.m.e;
    ctx.op("traversals");
    let base = Erased::<G::E>::new(&s.w.g, None);
    let plan = Plan::draw(ctx, e, &s.f);
    let e2 = plan.expected(e, &s.f);
    ctx.log(|| format!("view: {plan:?}"));
    ctx.state(fingerprint(&e2));
    let pg = (&s.w.g as &dyn Any).downcast_ref::<PortGraph>();
    with_view!(&plan, base, &s.h, |v| {
        let mut readers: Vec<Box<dyn Step + '_>> = vec![];
        for _ in 0..ctx.range(1, 3) {
            match (ctx.draw(5), pg) {
                (0, _) => readers.push(Box::new(Sorted::start(ctx, &s.w.g, e, G::NAME))),
                (1, _) => readers.push(Box::new(Sorted::start(ctx, base, e, "custom graph"))),
                (2, _) => readers.push(Box::new(Sorted::start(ctx, &v, &e2, plan.label()))),
                (3, _) => view_readers(ctx, &v, &e2, 1, &mut readers),
                (_, Some(g)) => readers.push(post(ctx, g, e)),
                _ => readers.push(Box::new(Sorted::start(ctx, v.clone(), &e2, plan.label()))),
            }
        }
        // Some are abandoned on the way.
        let stop = ctx.chance(20);
        let budget = if stop { ctx.draw(20) } else { 10_000 };
        run_all(ctx, readers, budget);
    });
}
/// Runs the readers in a random schedule, to their ends.
pub fn run_all<'a>(ctx: &mut Ctx, mut readers: Vec<Box<dyn Step<'a> + 'a>>, budget: usize) {
    for _ in 0..budget {
        if readers.is_empty() {
            return;
        }
        let k = ctx.draw(readers.len());
        if !readers[k].step(ctx) {
            readers.swap_remove(k);
        }
    }
}

// ---- dominators

/// The immediate dominators of the nodes reached from `entry`.
pub fn idoms(rest: &Expected, entry: N, d: usize) -> BTreeMap<N, N> {
    let reach = |without: Option<N>| -> BTreeSet<N> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![];
        if rest.nodes.contains_key(&entry) && without != Some(entry) {
            todo.push(entry);
        }
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(rest.node_links(x, d).iter().map(|(_, b)| rest.node_of(b.0)).filter(|y| Some(*y) != without));
            }
        }
        seen
    };
    let all = reach(None);
    let mut doms: BTreeMap<N, BTreeSet<N>> = all.iter().map(|x| (*x, BTreeSet::new())).collect();
    for a in &all {
        let still = reach(Some(*a));
        for x in all.iter().filter(|x| *x != a && !still.contains(x)) {
            doms.get_mut(x).unwrap().insert(*a);
        }
    }
    // The closest dominator is the one with the most dominators.
    all.iter().filter(|x| **x != entry).map(|x| (*x, *doms[x].iter().max_by_key(|a| doms[a].len()).unwrap())).collect()
}

pub const P17: CheckDef = CheckDef {
    id: "P17",
    f: p17,
    quick_runs: 200_000,
    thorough_runs: 4_000_000,
    about: "a graph is changed by interleaved clients through crashes and restarts; at random moments dominator trees are computed from drawn entries, in both directions, with drawn filters and every map type, and compared with dominance by definition (what becomes unreachable when a node is left out); trees are also computed on compacted and restored copies",
    real: "dominators, dominators_filtered, DominatorTree, PortGraph",
    stub: "filters (simulated caller code)",
    assumes: &["the definition of dominance in the model", "filters answer consistently"],
};
fn p17(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[6, 9, 14]);
    if ctx.chance(30) {
        mix = mix.acyclic();
        mix.w[17] = 0;
    }
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 40 });
    let mut w = World::<PortGraph>::new(ctx, mix);
    while ctx.next_step() {
        w.step(ctx);
        if ctx.chance(20) {
            dominate(ctx, &w.g, &w.m.e);
        }
    }
    dominate(ctx, &w.g, &w.m.e);
    if ctx.chance(30) {
        w.compact_nodes();
        dominate(ctx, &w.g, &w.m.e);
    }
}
pub fn dominate(ctx: &mut Ctx, g: &PortGraph, e: &Expected) {
    let all: Vec<N> = e.nodes.keys().copied().collect();
    ctx.state(fingerprint(e));
    for _ in 0..3 {
        let Some(entry) = ctx.pick(&all).copied() else { return };
        let acc = Accept::draw(ctx, e);
        let d = 1 - ctx.draw(2);
        let rest = acc.rest(e);
        let want = idoms(&rest, entry, d);
        let map = ctx.draw(2);
        ctx.op(["dominators in a dense map", "dominators in a custom map"][map]);
        let name = format!("dominators from {entry} in direction {d} (filters {}, map {map})", acc.filtered);
        let acc2 = acc.clone();
        ctx.log(|| format!("{name} {acc2:?}"));
        macro_rules! go {
            ($m:ty) => {{
                let t: DominatorTree<$m> = if acc.filtered {
                    dominators_filtered(g, n(entry), dir(d), |x| node_in(x, &acc.sets), |_, q| port_in(q, &acc.sets))
                } else {
                    dominators(g, n(entry), dir(d))
                };
                check_eq!(t.root().index(), entry, "root", "{name}");
                for x in 0..e.bound_nodes() + 2 {
                    let got = t.immediate_dominator(n(x)).map(|y| y.index());
                    check_eq!(got, want.get(&x).copied(), "immediate_dominator", "{name}: immediate dominator of {x}");
                }
            }};
        }
        match map {
            0 => go!(UnmanagedDenseMap<NodeIndex, MaybeNodeIndex<u32>>),
            _ => go!(SimMap<NodeIndex, MaybeNodeIndex<u32>, Falsy>),
        }
        if want.len() + 1 < e.nodes.len() {
            ctx.probe("unreachable nodes");
        }
    }
}

// ---- convexity

pub const P19: CheckDef = CheckDef {
    id: "P19",
    f: p19,
    quick_runs: 150_000,
    thorough_runs: 3_000_000,
    about: "an acyclic graph is changed by interleaved clients through crashes and restarts; at random moments static checkers are built over the graph, custom graphs and views, and drawn node sets (convex hulls, hulls with holes, random sets) and boundary ports are asked about in a random interleaving of several checkers and queries, every answer being compared with the definition",
    real: "TopoConvexChecker, LineConvexChecker, LineIntervals, Boundary, the graphs and views underneath",
    stub: "node iterators and custom graphs (simulated caller code)",
    assumes: &["the definition of convexity in the model", "the viewed graph is acyclic", "the nodes given to the line checker are distinct"],
};
fn p19(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        convexity::<PortGraph>(ctx)
    } else {
        convexity::<MultiPortGraph>(ctx)
    }
}
fn convexity<G: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[6, 9, 14]).acyclic();
    mix.w[17] = 0;
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(10) {
            convex_in(ctx, &s);
        }
    }
    convex_in(ctx, &s);
}
pub fn convex_in<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    let e = &s.w.m.e;
    match ctx.draw(4) {
        0 | 1 => ask(ctx, &s.w.g, e, G::NAME),
        2 => ask(ctx, Erased::<G::E>::new(&s.w.g, None), e, "custom graph"),
        _ => {
            let plan = Plan::draw(ctx, e, &s.f);
            let e2 = plan.expected(e, &s.f);
            ctx.log(|| format!("view: {plan:?}"));
            let base = Erased::<G::E>::new(&s.w.g, None);
            with_view!(&plan, base, &s.h, |v| ask(ctx, &v, &e2, plan.label()));
        }
    }
}
/// A set of nodes that is likely to be interesting.
pub fn draw_set(ctx: &mut Ctx, e: &Expected) -> Vec<N> {
    let all: Vec<N> = e.nodes.keys().copied().collect();
    let mut v = match ctx.draw(5) {
        0 => ctx.subset(&all, 50),
        1 => ctx.subset(&all, 25),
        2 => {
            // A few nodes, and something far behind them.
            let few = ctx.range(1, 3);
            let mut v: Vec<N> = (0..few).filter_map(|_| ctx.pick(&all).copied()).collect();
            let future: Vec<N> = v.first().map(|x| e.reachable(&[*x]).into_iter().collect()).unwrap_or_default();
            v.extend(ctx.pick(&future).copied());
            v.sort();
            v.dedup();
            v
        }
        k => {
            // Everything between a few nodes, perhaps with a hole.
            let few = ctx.range(1, 3);
            let seeds: BTreeSet<N> = (0..few).filter_map(|_| ctx.pick(&all).copied()).collect();
            let after = |x: N| e.reachable(&[x]);
            let past_of = |x: N| -> bool { seeds.iter().any(|s| after(x).contains(s)) };
            let future: BTreeSet<N> = seeds.iter().flat_map(|x| after(*x)).collect();
            let mut hull: Vec<N> = future.into_iter().filter(|x| past_of(*x)).collect();
            if k == 4 && hull.len() > 1 {
                let i = ctx.draw(hull.len());
                hull.remove(i);
            }
            hull
        }
    };
    ctx.shuffle(&mut v);
    v
}
/// Boundary ports of a set.
pub fn draw_ports(ctx: &mut Ctx, e: &Expected, set: &[N]) -> (Vec<P>, Vec<P>) {
    let pct = *ctx.pick(&[0, 0, 15, 60]).unwrap();
    let side = |ctx: &mut Ctx, d: usize| {
        let v: Vec<P> = set.iter().flat_map(|x| e.nodes[x][d].iter().copied()).collect();
        ctx.subset(&v, pct)
    };
    (side(ctx, IN), side(ctx, OUT))
}
pub fn ports_it(v: &[P]) -> impl Iterator<Item = PortIndex> + '_ {
    v.iter().map(|q| {
        tick("port iterator");
        p(*q)
    })
}
fn ask<V>(ctx: &mut Ctx, g: V, e: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16> + Clone,
    V::LinkEndpoint: EpT,
{
    ctx.op("static checkers");
    ctx.state(fingerprint(e));
    let topo = if ctx.chance(50) { TopoConvexChecker::new(g.clone()) } else { <TopoConvexChecker<V> as CreateConvexChecker<V>>::new_convex_checker(g.clone()) };
    let mut line = <LineConvexChecker<V> as CreateConvexChecker<V>>::new_convex_checker(g.clone());
    let other = line.clone();
    check_lines(&line, e, who);
    #[allow(deprecated)]
    let graphs = [g.node_count(), topo.graph().node_count(), CreateConvexChecker::graph(&topo).node_count(), CreateConvexChecker::graph(&line).node_count()];
    check_eq!(graphs, [e.nodes.len(); 4], "graph", "{who}: nodes of the graph of the checkers");
    for _ in 0..ctx.range(3, 8) * if e.nodes.len() > 18 { 3 } else { 1 } {
        query(ctx, &topo, [&line, &other], &g, e, who);
        if ctx.chance(10) {
            line.shrink_to_fit();
        }
    }
}
/// A few questions about one set of nodes.
pub fn query<V>(ctx: &mut Ctx, topo: &TopoConvexChecker<V>, lines: [&LineConvexChecker<V>; 2], g: &V, e: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16> + Clone,
    V::LinkEndpoint: EpT,
{
    let v = draw_set(ctx, e);
    let set: BTreeSet<N> = v.iter().copied().collect();
    let (ins, outs) = draw_ports(ctx, e, &v);
    let convex = is_convex(e, &set, &[], &[]);
    let want = is_convex(e, &set, &ins, &outs);
    ctx.log(|| format!("{who}: nodes {v:?}, inputs {ins:?}, outputs {outs:?}: {want}"));
    ctx.probe(if want { "convex" } else if convex { "convex nodes, linked boundary" } else { "not convex" });
    for _ in 0..ctx.range(1, 3) {
        let line = lines[ctx.chance(30) as usize];
        match ctx.draw(6) {
            0 => check_eq!(topo.is_node_convex(node_list(&v)), convex, "topo", "{who}: TopoConvexChecker::is_node_convex({v:?})"),
            1 => {
                let mut twice = v.clone();
                twice.extend(ctx.pick(&v).copied());
                check_eq!(topo.is_convex(node_list(&twice), ports_it(&ins), ports_it(&outs)), want, "topo", "{who}: TopoConvexChecker::is_convex({twice:?}, {ins:?}, {outs:?})")
            }
            2 => check_eq!(line.is_node_convex(node_list(&v)), convex, "line", "{who}: LineConvexChecker::is_node_convex({v:?})"),
            3 => check_eq!(line.is_convex(node_list(&v), ports_it(&ins), ports_it(&outs)), want, "line", "{who}: LineConvexChecker::is_convex({v:?}, {ins:?}, {outs:?})"),
            4 => intervals(ctx, line, g, e, &v, convex, who),
            _ => {
                let sub = Subgraph::with_nodes(g.clone(), node_list(&v));
                let b = sub.port_boundary().into_owned();
                let (bi, bo) = (px(b.input_indices().iter().copied()), px(b.output_indices().iter().copied()));
                let crossing = is_convex(e, &set, &bi, &bo);
                let w = set.len() <= 1 || crossing;
                check_eq!(sub.is_convex(), w, "subgraph", "{who}: Subgraph::is_convex of {v:?}");
                check_eq!(sub.is_convex_with_checker(line), w, "subgraph", "{who}: Subgraph::is_convex_with_checker of {v:?}, line checker");
                check_eq!(sub.is_convex_with_checker(topo), w, "subgraph", "{who}: Subgraph::is_convex_with_checker of {v:?}, topological checker");
            }
        }
    }
}
/// The lines are edge disjoint paths that cover the graph.
pub fn check_lines<V>(line: &LineConvexChecker<V>, e: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16>,
{
    let mut at: BTreeMap<u32, BTreeMap<u32, N>> = BTreeMap::new();
    for x in e.nodes.keys() {
        let pos = line.get_position(n(*x)).0;
        let lines = line.get_lines(n(*x));
        check!(!lines.is_empty(), "lines", "{who}: node {x} is on no line");
        for l in lines {
            let other = at.entry(l.0).or_default().insert(pos, *x);
            check!(other.is_none(), "lines", "{who}: nodes {other:?} and {x} are at the same position of line {}", l.0);
        }
    }
    for (a, b) in e.node_edges() {
        let (pa, pb) = (line.get_position(n(a)), line.get_position(n(b)));
        check!(pa < pb, "lines", "{who}: {a} links to {b}, but their positions are {pa:?} and {pb:?}");
    }
    for (q, (x, _, _)) in e.ports.iter().take(200) {
        let lines: Vec<u32> = line.lines_at_port(p(*q)).iter().map(|l| l.0).collect();
        let set: BTreeSet<u32> = lines.iter().copied().collect();
        check_eq!(lines.len(), set.len(), "lines_at_port", "{who}: repeated lines at port {q}");
        check_eq!(lines.len(), e.port_links(*q).len(), "lines_at_port", "{who}: number of lines at port {q}, against its links");
        let of: BTreeSet<u32> = line.get_lines(n(*x)).iter().map(|l| l.0).collect();
        check!(set.is_subset(&of), "lines_at_port", "{who}: lines {set:?} at port {q}, but {of:?} at its node");
    }
}
fn intervals<V>(ctx: &mut Ctx, line: &LineConvexChecker<V>, g: &V, e: &Expected, v: &[N], convex: bool, who: &str)
where
    V: LinkView<PortOffsetBase = u16> + Clone,
{
    let as_map = |iv: &LineIntervals| -> BTreeMap<u32, (u32, u32)> { iv.iter().map(|(l, i)| (l.0, (i.min.0, i.max.0))).collect() };
    let got = line.get_intervals_from_nodes(node_list(v));
    // The interval of each line, when the nodes are all that the line has there.
    let mut want: Option<BTreeMap<u32, (u32, u32)>> = Some(BTreeMap::new());
    let mut used: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for x in v {
        for l in line.get_lines(n(*x)) {
            used.entry(l.0).or_default().insert(line.get_position(n(*x)).0);
        }
    }
    for (l, pos) in &used {
        let (lo, hi) = (*pos.first().unwrap(), *pos.last().unwrap());
        let others = e.nodes.keys().any(|y| {
            let py = line.get_position(n(*y)).0;
            !v.contains(y) && lo < py && py < hi && line.get_lines(n(*y)).iter().any(|m| m.0 == *l)
        });
        if others {
            want = None;
            break;
        }
        want.as_mut().unwrap().insert(*l, (lo, hi));
    }
    check_eq!(got.as_ref().map(as_map), want, "intervals", "{who}: intervals of {v:?}");
    let Some(iv) = got else {
        check!(!convex, "intervals", "{who}: no intervals for the convex set {v:?}");
        ctx.probe("no intervals");
        return;
    };
    check_eq!(iv.is_empty(), v.is_empty(), "intervals", "{who}: is_empty for {v:?}");
    check_eq!(iv.values().count(), iv.iter().count(), "intervals", "{who}: number of intervals");
    check_eq!(line.is_convex_by_intervals(&iv), convex, "intervals", "{who}: is_convex_by_intervals for {v:?}");
    let inside = ix(line.nodes_in_intervals(&iv));
    let set: BTreeSet<N> = v.iter().copied().collect();
    check_eq!(inside.iter().copied().collect::<BTreeSet<_>>(), set, "nodes_in_intervals", "{who}: nodes in the intervals of {v:?}");
    check_eq!(inside.len(), set.len(), "nodes_in_intervals", "{who}: repeated nodes in the intervals of {v:?}");
    let pos: Vec<u32> = inside.iter().map(|x| line.get_position(n(*x)).0).collect();
    check!(pos.windows(2).all(|w| w[0] <= w[1]), "nodes_in_intervals", "{who}: nodes in the intervals of {v:?} are not in order: {inside:?}");
    for (l, i) in iv.iter() {
        check_eq!(iv.get(l), Some(i), "intervals", "{who}: get({l:?})");
    }
    // Extension by one node.
    let all: Vec<N> = e.nodes.keys().copied().collect();
    for _ in 0..2 {
        let Some(x) = ctx.pick(&all).copied() else { break };
        let mut more = iv.clone();
        let ok = line.try_extend_intervals(&mut more, n(x));
        let mut larger = v.to_vec();
        if !larger.contains(&x) {
            larger.push(x);
        }
        match line.get_intervals_from_nodes(node_list(&larger)) {
            Some(w) => {
                check!(ok, "try_extend_intervals", "{who}: the intervals of {v:?} cannot be extended to {x}, but {larger:?} has intervals");
                check_eq!(as_map(&more), as_map(&w), "try_extend_intervals", "{who}: intervals of {v:?} extended to {x}");
            }
            None => {
                check!(!ok, "try_extend_intervals", "{who}: the intervals of {v:?} were extended to {x}, but {larger:?} has none");
                check_eq!(more, iv, "try_extend_intervals", "{who}: intervals of {v:?} after failing to extend to {x}");
            }
        }
    }
    // From a boundary.
    if !v.is_empty() {
        let b = Subgraph::with_nodes(g.clone(), node_list(v)).port_boundary().into_owned();
        let nodes: Vec<NodeIndex> = Subgraph::new_subgraph(g.clone(), b.clone()).nodes_iter().collect();
        let want = line.get_intervals_from_nodes(nodes);
        check_eq!(line.get_intervals_from_boundary(&b).as_ref().map(as_map), want.as_ref().map(as_map), "boundary intervals", "{who}: intervals from the boundary of {v:?}");
        let ports: Vec<PortIndex> = b.input_indices().iter().chain(b.output_indices()).copied().collect();
        check_eq!(line.get_intervals_from_boundary_ports(ports).as_ref().map(as_map), want.as_ref().map(as_map), "boundary intervals", "{who}: intervals from the boundary ports of {v:?}");
    }
}
