//! Views: filters, subgraphs and regions, nested to any depth.

use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::laws::*;
use crate::model::*;
use crate::scene::*;
use crate::{check, check_eq, with_view};
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::view::*;
use ::portgraph::*;
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};

/// The mix of a scene whose graph is then looked at.
pub fn scene_mix(ctx: &mut Ctx, sizes: &[usize]) -> Mix {
    let size = *ctx.pick(sizes).unwrap();
    let mut mix = Mix::draw(ctx, size).build();
    mix.w[0] = 40;
    mix.w[13] = 0;
    mix.w[15] = mix.w[15].min(2);
    mix.w[16] = mix.w[16].min(2);
    mix
}

/// Readers of random queries on a view.
pub fn view_readers<'a, V>(ctx: &mut Ctx, v: &'a V, e: &Expected, count: usize, out: &mut Vec<Box<dyn Step<'a> + 'a>>)
where
    V: LinkView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    let ports: Vec<P> = e.ports.keys().copied().collect();
    macro_rules! add {
        ($name:expr, $it:expr) => {{
            let want: Vec<_> = $it.collect();
            out.push(Box::new(Reader::new($name, $it, want).cl()));
        }};
    }
    for _ in 0..count {
        let x = ctx.pick(&nodes).copied();
        let y = ctx.pick(&nodes).copied();
        let q = ctx.pick(&ports).copied();
        let d = ctx.draw(2);
        match (ctx.draw(12), x, y, q) {
            (1, ..) => add!("ports_iter", v.ports_iter()),
            (2, Some(x), ..) => add!(format!("ports({x}, {d})"), v.ports(n(x), dir(d))),
            (3, Some(x), ..) => add!(format!("all_ports({x})"), v.all_ports(n(x))),
            (4, Some(x), ..) => add!(format!("port_offsets({x}, {d})"), v.port_offsets(n(x), dir(d))),
            (5, Some(x), ..) => add!(format!("all_port_offsets({x})"), v.all_port_offsets(n(x))),
            (6, Some(x), ..) => add!(format!("links({x}, {d})"), v.links(n(x), dir(d))),
            (7, Some(x), ..) => add!(format!("all_links({x})"), v.all_links(n(x))),
            (8, Some(x), ..) => add!(format!("neighbours({x}, {d})"), v.neighbours(n(x), dir(d))),
            (9, Some(x), ..) => add!(format!("all_neighbours({x})"), v.all_neighbours(n(x))),
            (10, Some(x), Some(y), _) => add!(format!("get_connections({x}, {y})"), v.get_connections(n(x), n(y))),
            (11, _, _, Some(q)) => add!(format!("port_links({q})"), v.port_links(p(q))),
            _ => add!("nodes_iter", v.nodes_iter()),
        }
    }
}

/// Checks what a view answers about nodes of the base graph that it leaves out.
pub fn check_outside<V>(ctx: &mut Ctx, v: &V, e: &Expected, root: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    let out: Vec<N> = root.nodes.keys().copied().filter(|x| !e.nodes.contains_key(x)).collect();
    let all: Vec<N> = root.nodes.keys().copied().collect();
    for x in &out {
        for _ in 0..3 {
            let y = *ctx.pick(&all).unwrap();
            for (a, b) in [(*x, y), (y, *x)] {
                check_eq!(eps(v.get_connections(n(a), n(b))), vec![], "get_connections", "{who}: get_connections({a}, {b}) with a node left out");
                check!(!v.connected(n(a), n(b)), "connected", "{who}: connected({a}, {b}) with a node left out");
                check!(v.get_connection(n(a), n(b)).is_none(), "get_connection", "{who}: get_connection({a}, {b}) with a node left out");
            }
        }
    }
    for x in out {
        check_outside_of(v, x, root, who);
    }
}
/// The same for the links of one node.
pub fn check_outside_of<V>(v: &V, x: N, root: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    for d in [IN, OUT] {
        check_eq!(eps(v.links(n(x), dir(d))), vec![], "links", "{who}: links({x}, {d}) of a node left out");
        for q in &root.nodes[&x][d] {
            check_eq!(eps(v.port_links(p(*q))), vec![], "port_links", "{who}: port_links({q}) of a node left out");
        }
    }
    check_eq!(eps(v.all_links(n(x))), vec![], "all_links", "{who}: all_links({x}) of a node left out");
}

/// What every view must satisfy.
fn judge<V>(ctx: &mut Ctx, v: &V, e: &Expected, root: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    let absent_n: Vec<N> = root.nodes.keys().copied().chain([root.bound_nodes(), root.bound_nodes() + 3]).collect();
    let absent_p: Vec<P> = root.ports.keys().copied().chain([root.bound_ports(), root.bound_ports() + 3]).collect();
    // Readers started before the other queries, and pulled in between them.
    let mut readers = vec![];
    view_readers(ctx, v, e, 2, &mut readers);
    if ctx.chance(50) {
        check_view(v, e, who, &absent_n, &absent_p);
        interleave(ctx, readers, 12);
    } else {
        interleave(ctx, readers, 12);
        check_view(v, e, who, &absent_n, &absent_p);
    }
    check_outside(ctx, v, e, root, who);
}

/// Nested views over a base behind the seam.
fn nest<E: EpT>(ctx: &mut Ctx, base: Erased<'_, E>, e: &Expected, root: &Expected, sc: (&Hierarchy, &crate::hier::Forest), depth: usize, kinds: &[&str], who: &str) {
    let plan = Plan::draw(ctx, e, sc.1);
    let e2 = plan.expected(e, sc.1);
    let who = format!("{} over {who}", plan.label());
    ctx.op(plan.label());
    ctx.log(|| format!("{who}: {plan:?}"));
    ctx.state(fingerprint(&e2));
    with_view!(&plan, base, sc.0, |v| {
        if kinds.contains(&plan.label()) || depth == 0 {
            judge(ctx, &v, &e2, root, &who);
            check_subports(&v, &e2, &who);
        }
        if depth > 0 && !e2.nodes.is_empty() {
            let m = Multi(&v);
            nest(ctx, Erased::<E>::new(&v, Some(&m)), &e2, root, sc, depth - 1, kinds, &who);
        }
    });
}

/// Draws the plan of one of the wanted kinds, if it can.
fn plan_of(ctx: &mut Ctx, e: &Expected, f: &crate::hier::Forest, kinds: &[&str]) -> Plan {
    let mut plan = Plan::draw(ctx, e, f);
    for _ in 0..6 {
        if kinds.contains(&plan.label()) {
            break;
        }
        plan = Plan::draw(ctx, e, f);
    }
    plan
}

pub fn look<G: Gr>(ctx: &mut Ctx, s: &Scene<G>, kinds: &[&str]) {
    let e = &s.w.m.e;
    let multi = (&s.w.g as &dyn Any).downcast_ref::<MultiPortGraph>();
    // Straight over the graph.
    let plan = plan_of(ctx, e, &s.f, kinds);
    let e2 = plan.expected(e, &s.f);
    let who = format!("{} over {} after {}", plan.label(), G::NAME, s.w.last);
    ctx.op(plan.label());
    ctx.log(|| format!("{who}: {plan:?}"));
    ctx.state(fingerprint(&e2));
    match multi {
        Some(g) => with_view!(&plan, g, &s.h, |v| {
            judge(ctx, &v, &e2, e, &who);
            check_subports(&v, &e2, &who);
            if ctx.chance(30) {
                let c = v.clone();
                judge(ctx, &c, &e2, e, &format!("clone of {who}"));
            }
        }),
        None => with_view!(&plan, &s.w.g, &s.h, |v| {
            judge(ctx, &v, &e2, e, &who);
            if ctx.chance(30) {
                let c = v.clone();
                judge(ctx, &c, &e2, e, &format!("clone of {who}"));
            }
        }),
    }
    // Nested over a custom graph.
    let depth = ctx.draw(4);
    let m = multi.map(Multi);
    let base = Erased::<G::E>::new(&s.w.g, m.as_ref().map(|m| m as &dyn DynMulti));
    nest(ctx, base, e, e, (&s.h, &s.f), depth, kinds, G::NAME);
}

pub const P15: CheckDef = CheckDef {
    id: "P15",
    f: p15,
    quick_runs: 120_000,
    thorough_runs: 2_400_000,
    about: "a graph and its hierarchy are changed by interleaved clients through crashes and restarts; at random moments filtered views with drawn node and link sets are built over the graph, over custom graphs, and over other views up to four deep, and every query (also about what is left out) is compared with the restriction of the model while lazy readers are pulled in a random schedule",
    real: "FilteredGraph, Subgraph, Region, FlatRegion, PortGraph, MultiPortGraph, Hierarchy",
    stub: "filters and the custom graph behind nested views (simulated caller code that forwards to the real graph)",
    assumes: &["the reference model states the intended behaviour", "filters answer consistently", "regions are only built where the hierarchy nodes below the root belong to the viewed graph"],
};
fn p15(ctx: &mut Ctx) {
    views(ctx, &["FilteredGraph", "NodeFiltered"])
}
pub fn views(ctx: &mut Ctx, kinds: &[&str]) {
    if ctx.draw(2) == 0 {
        views_of::<PortGraph>(ctx, kinds)
    } else {
        views_of::<MultiPortGraph>(ctx, kinds)
    }
}
fn views_of<G: Gr>(ctx: &mut Ctx, kinds: &[&str]) {
    let mix = scene_mix(ctx, &[5, 8, 12]);
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(12) {
            look(ctx, &s, kinds);
        }
    }
    look(ctx, &s, kinds);
}

pub const P12: CheckDef = CheckDef {
    id: "P12",
    f: p12,
    quick_runs: 150_000,
    thorough_runs: 3_000_000,
    about: "a target graph changes for a while; then plain graphs, views of other graphs (filtered, regions, subgraphs, nested over custom graphs) are inserted and parts of the target are copied within it, interleaved with further changes, clones and restarts; the whole target is compared with the model after every copy",
    real: "LinkMut::insert_graph, Subgraph::copy_in_parent, all views, PortGraph, MultiPortGraph",
    stub: "filters and custom graphs behind nested views",
    assumes: &["the reference model states the intended behaviour", "a source that needs several links per port is only inserted into a MultiPortGraph"],
};
fn p12(ctx: &mut Ctx) {
    match ctx.draw(3) {
        0 => copies::<PortGraph, PortGraph>(ctx),
        1 => copies::<MultiPortGraph, MultiPortGraph>(ctx),
        _ => copies::<MultiPortGraph, PortGraph>(ctx),
    }
}
fn copies<T: Gr, S: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[6, 10, 14]);
    mix.w[18] = mix.w[18].max(1) * 5;
    mix.w[17] = 2;
    let mut w = World::<T>::new(ctx, mix);
    let mix = scene_mix(ctx, &[5, 8]);
    let mut s = Scene::<S>::new(ctx, mix);
    ctx.max_steps = ctx.range(6, if ctx.thorough { 70 } else { 40 });
    while ctx.next_step() {
        if ctx.chance(50) {
            s.step(ctx);
            continue;
        }
        w.step(ctx);
        if w.last.starts_with("copy") || w.last.starts_with("insert") {
            w.check();
        }
        if w.m.e.nodes.len() < 30 && ctx.chance(25) {
            insert_view(ctx, &mut w, &s);
            w.check();
        }
    }
    insert_view(ctx, &mut w, &s);
    w.check();
}
fn insert_view<T: Gr, S: Gr>(ctx: &mut Ctx, w: &mut World<T>, s: &Scene<S>) {
    let e = &s.w.m.e;
    let before = s.w.g.clone();
    match ctx.draw(4) {
        0 => {
            ctx.op("insert graph");
            w.insert_graph(ctx, &s.w.g, e);
        }
        1 => {
            ctx.op("insert custom graph");
            let base = Erased::<S::E>::new(&s.w.g, None);
            w.insert_graph(ctx, &base, e);
        }
        k => {
            let plan = Plan::draw(ctx, e, &s.f);
            let e2 = plan.expected(e, &s.f);
            ctx.op("insert view");
            ctx.log(|| format!("insert {plan:?}"));
            if k == 2 {
                with_view!(&plan, &s.w.g, &s.h, |v| w.insert_graph(ctx, &v, &e2));
            } else {
                let base = Erased::<S::E>::new(&s.w.g, None);
                let plan2 = Plan::draw(ctx, &e2, &s.f);
                let e3 = plan2.expected(&e2, &s.f);
                ctx.log(|| format!("  {plan2:?}"));
                with_view!(&plan, base, &s.h, |v| {
                    let base = Erased::<S::E>::new(&v, None);
                    with_view!(&plan2, base, &s.h, |v| w.insert_graph(ctx, &v, &e3));
                });
            }
        }
    }
    let last = &w.last;
    ctx.log(|| last.clone());
    check!(before == s.w.g, "source changed", "{}: the source changed", w.last);
}

pub const P13: CheckDef = CheckDef {
    id: "P13",
    f: p13,
    quick_runs: 150_000,
    thorough_runs: 3_000_000,
    about: "a graph and its hierarchy are changed by interleaved clients through crashes and restarts; at random moments subgraphs are built from node lists and from boundary ports, over graphs, views and custom graphs, and all their queries, boundaries, reconstruction, convexity and port orderings are compared with the model",
    real: "Subgraph, Boundary, PortOrdering, TopoConvexChecker, other views underneath",
    stub: "node iterators, filters and custom graphs (simulated caller code)",
    assumes: &[
        "the reference model states the intended behaviour",
        "rebuilding from a boundary and port orderings are asked for subgraphs whose boundary ports have no links inside, and port orderings on acyclic subgraphs",
    ],
};
fn p13(ctx: &mut Ctx) {
    match ctx.draw(2) {
        0 => subgraphs::<PortGraph>(ctx),
        _ => subgraphs::<MultiPortGraph>(ctx),
    }
}
fn subgraphs<G: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[5, 8, 12]);
    if ctx.chance(60) {
        mix = mix.acyclic();
        mix.w[17] = 0;
    }
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(12) {
            enclose(ctx, &s);
        }
    }
    enclose(ctx, &s);
}
/// The nodes reached from the boundary ports without crossing the boundary.
fn enclosed(e: &Expected, ports: &BTreeSet<P>) -> BTreeSet<N> {
    let mut todo: Vec<N> = ports.iter().map(|q| e.node_of(*q)).collect();
    if todo.is_empty() {
        return e.nodes.keys().copied().collect();
    }
    let mut seen = BTreeSet::new();
    while let Some(x) = todo.pop() {
        if !seen.insert(x) {
            continue;
        }
        for q in e.nodes[&x].iter().flatten() {
            for (a, b) in e.port_links(*q) {
                if !ports.contains(&a.0) && !ports.contains(&b.0) {
                    todo.push(e.node_of(b.0));
                }
            }
        }
    }
    seen
}
pub fn enclose<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    let e = &s.w.m.e;
    match ctx.draw(3) {
        0 => look(ctx, s, &["Subgraph"]),
        1 => {
            let multi = (&s.w.g as &dyn Any).downcast_ref::<MultiPortGraph>();
            match multi {
                Some(g) => enclose_in(ctx, g, e, G::NAME),
                None => enclose_in(ctx, &s.w.g, e, G::NAME),
            }
        }
        _ => {
            let plan = Plan::draw(ctx, e, &s.f);
            let e2 = plan.expected(e, &s.f);
            ctx.log(|| format!("below: {plan:?}"));
            let base = Erased::<G::E>::new(&s.w.g, None);
            with_view!(&plan, base, &s.h, |v| {
                let base = Erased::<G::E>::new(&v, None);
                enclose_in(ctx, base, &e2, plan.label());
            });
        }
    }
}
fn is_acyclic(e: &Expected) -> bool {
    let succ = e.succ();
    e.nodes.keys().all(|x| {
        let next: Vec<N> = succ[x].iter().copied().collect();
        !e.reachable(&next).contains(x)
    })
}
fn enclose_in<V>(ctx: &mut Ctx, g: V, e: &Expected, name: &str)
where
    V: LinkView<PortOffsetBase = u16> + Clone,
    V::LinkEndpoint: EpT,
{
    ctx.op("boundary");
    let all: Vec<N> = e.nodes.keys().copied().collect();
    let pct = *ctx.pick(&[50, 25, 80, 100]).unwrap();
    let mut list = ctx.subset(&all, pct);
    ctx.shuffle(&mut list);
    let mut given = list.clone();
    if ctx.chance(15) && !list.is_empty() {
        let again = *ctx.pick(&list).unwrap();
        given.push(again);
    }
    let set: BTreeSet<N> = list.iter().copied().collect();
    let who = format!("Subgraph of {given:?} in {name}");
    ctx.log(|| who.clone());
    let inner = e.restrict(|x| set.contains(&x), |_, _| true);
    ctx.state(fingerprint(&inner));
    let sub = Subgraph::with_nodes(g.clone(), node_list(&given));
    check_eq!(ix(sub.nodes_iter()), set.iter().copied().collect::<Vec<_>>(), "nodes", "{who}: nodes");
    // The boundary.
    let external = |q: P| e.port_links(q).iter().any(|(_, b)| !set.contains(&e.node_of(b.0)));
    let internal = |q: P| e.port_links(q).iter().any(|(_, b)| set.contains(&e.node_of(b.0)));
    let side = |d: usize| -> Vec<P> { list.iter().flat_map(|x| e.nodes[x][d].iter().copied()).filter(|q| external(*q)).collect() };
    let (ins, outs) = (side(IN), side(OUT));
    let b = sub.port_boundary().into_owned();
    check_boundary(ctx, &g, &b, e, &ins, &outs, &who);
    let again = Subgraph::with_nodes(g.clone(), given.iter().map(|x| n(*x))).port_boundary().into_owned();
    check_eq!(again, b, "boundary", "{who}: boundary of the same subgraph, built again");
    let crossing: usize = inner.ports.keys().filter(|q| external(**q)).count();
    check_eq!(b.num_ports(), crossing, "boundary", "{who}: number of boundary ports");

    // Convexity, for more than one node of an acyclic graph.
    if is_acyclic(e) && e.nodes.len() < 40 {
        let want = set.len() <= 1 || is_convex(e, &set, &ins, &outs);
        check_eq!(sub.is_convex(), want, "is_convex", "{who}: is_convex");
        ctx.probe(if want { "convex subgraph" } else { "subgraph that is not convex" });
    }

    // Reconstruction.
    let mixed = ins.iter().chain(&outs).any(|q| internal(*q));
    if mixed {
        ctx.probe("boundary port with links inside");
        return;
    }
    let ports: BTreeSet<P> = ins.iter().chain(&outs).copied().collect();
    let want = enclosed(e, &ports);
    // Only the parts of the subgraph with a boundary port can be found again.
    check!(ports.is_empty() || want.is_subset(&set), "model", "{who}: broken model");
    let back = Subgraph::new_subgraph(g.clone(), b.clone());
    check_eq!(ix(back.nodes_iter()), want.iter().copied().collect::<Vec<_>>(), "rebuilt nodes", "{who}: nodes of the subgraph rebuilt from its boundary");
    check_eq!(back.port_boundary().into_owned(), b, "rebuilt boundary", "{who}: boundary of the rebuilt subgraph");
    let absent: Vec<N> = e.nodes.keys().copied().collect();
    let absent_p: Vec<P> = e.ports.keys().copied().collect();
    check_view(&back, &e.restrict(|x| want.contains(&x), |_, _| true), &format!("rebuilt {who}"), &absent, &absent_p);

    // Port ordering inside.
    if !is_acyclic(&inner) {
        return;
    }
    ctx.op("port ordering");
    let order = b.port_ordering(&sub);
    let succ: BTreeMap<N, BTreeSet<N>> = set.iter().map(|x| (*x, inner.reachable(&[*x]))).collect();
    let bp = |q: P, d: usize| b.find_port(p(q), dir(d));
    let depends = |i: P, o: P| succ[&e.node_of(i)].contains(&e.node_of(o));
    for i in &ins {
        let got: BTreeSet<P> = order.reachable_ports(bp(*i, IN)).iter().map(|q| b.port_index(q).index()).collect();
        let want: BTreeSet<P> = outs.iter().copied().filter(|o| depends(*i, *o)).collect();
        check_eq!(got, want, "reachable_ports", "{who}: outputs depending on input {i}");
    }
    for o in &outs {
        let got: BTreeSet<P> = order.reaching_ports(bp(*o, OUT)).iter().map(|q| b.port_index(q).index()).collect();
        let want: BTreeSet<P> = ins.iter().copied().filter(|i| depends(*i, *o)).collect();
        check_eq!(got, want, "reaching_ports", "{who}: inputs that output {o} depends on");
    }
    // Against the ordering of a part with fewer links.
    let keep: BTreeSet<P> = {
        let v: Vec<P> = inner.ports.keys().copied().collect();
        ctx.subset(&v, 75).into_iter().collect()
    };
    let sets = Sets { nodes: set.clone(), ports: keep.clone() };
    let less = filtered(&sub, false, true, &sets);
    let fewer = inner.restrict(|_| true, |a, c| keep.contains(&a.0) && keep.contains(&c.0));
    let order2 = b.port_ordering(&less);
    let depends2 = |i: P, o: P| fewer.reachable(&[e.node_of(i)]).contains(&e.node_of(o));
    let mut missing = BTreeSet::new();
    for i in &ins {
        for o in &outs {
            if depends(*i, *o) && !depends2(*i, *o) {
                missing.insert((*i, *o));
            }
        }
    }
    check!(order.is_stronger_than(&order2), "is_stronger_than", "{who}: the full ordering is not stronger than a part of it");
    check_eq!(order2.is_stronger_than(&order), missing.is_empty(), "is_stronger_than", "{who}: a partial ordering compared with the full one");
    check_eq!(b.is_stronger_than(&b, &less, &sub), missing.is_empty(), "is_stronger_than", "{who}: the boundary in a partial graph");
    let mut got: Vec<(P, P)> = order2.missing_pairs(&order).map(|(i, o)| (b.port_index(&i).index(), b.port_index(&o).index())).collect();
    got.sort();
    check_eq!(got, missing.into_iter().collect::<Vec<_>>(), "missing_pairs", "{who}: missing pairs");
    check_eq!(order.missing_pairs(&order2).count(), 0, "missing_pairs", "{who}: missing pairs of the full ordering");
}
fn check_boundary<V>(ctx: &mut Ctx, g: &V, b: &Boundary, e: &Expected, ins: &[P], outs: &[P], who: &str)
where
    V: LinkView<PortOffsetBase = u16>,
{
    let idx = |v: &[PortIndex]| v.iter().map(|q| q.index()).collect::<Vec<_>>();
    check_eq!(idx(b.input_indices()), ins, "boundary inputs", "{who}: boundary inputs");
    check_eq!(idx(b.output_indices()), outs, "boundary outputs", "{who}: boundary outputs");
    check_eq!(px(b.port_indices()), ins.iter().chain(outs).copied().collect::<Vec<_>>(), "boundary ports", "{who}: port_indices");
    for (d, want) in [(IN, ins), (OUT, outs)] {
        let got: Vec<P> = b.ports(dir(d)).map(|q| b.port_index(&q).index()).collect();
        check_eq!(got, want, "boundary ports", "{who}: ports({d})");
        let got: Vec<_> = if d == IN { b.inputs().collect() } else { b.outputs().collect() };
        for (k, q) in got.into_iter().enumerate() {
            check_eq!(b.find_port(p(want[k]), dir(d)), q, "find_port", "{who}: find_port({})", want[k]);
        }
    }
    // The same ports, given in any order that keeps inputs and outputs ordered.
    let mut mixed = vec![];
    let (mut i, mut o) = (0, 0);
    while i < ins.len() || o < outs.len() {
        if o == outs.len() || (i < ins.len() && ctx.chance(50)) {
            mixed.push(p(ins[i]));
            i += 1;
        } else {
            mixed.push(p(outs[o]));
            o += 1;
        }
    }
    let c = Boundary::from_ports(g, mixed);
    check_eq!(&c, b, "from_ports", "{who}: boundary made from its ports");
    check!(b.is_compatible(&c), "is_compatible", "{who}: not compatible with itself");
    if !ins.is_empty() {
        let short = Boundary::new(ins[1..].iter().map(|q| p(*q)), outs.iter().map(|q| p(*q)));
        check!(!b.is_compatible(&short), "is_compatible", "{who}: compatible with fewer inputs");
    }
    let _ = e;
}
/// Whether no path between two nodes of the set leaves it, and no output is
/// linked to an input.
pub fn is_convex(e: &Expected, set: &BTreeSet<N>, ins: &[P], outs: &[P]) -> bool {
    for o in outs {
        if e.port_links(*o).iter().any(|(_, b)| ins.contains(&b.0)) {
            return false;
        }
    }
    let succ = e.succ();
    let outside: Vec<N> = set.iter().flat_map(|x| succ[x].iter().copied()).filter(|y| !set.contains(y)).collect();
    // Paths stay outside until they come back.
    let mut seen = BTreeSet::new();
    let mut todo = outside;
    while let Some(x) = todo.pop() {
        if set.contains(&x) {
            return false;
        }
        if seen.insert(x) {
            todo.extend(succ[&x].iter().copied());
        }
    }
    true
}
