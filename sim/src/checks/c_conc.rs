//! Threads that share views.

use super::c_views::{check_outside_of, scene_mix, views};
use super::CheckDef;
use crate::coop;
use crate::engine::*;
use crate::gr::*;
use crate::hier::Forest;
use crate::model::*;
use crate::scene::*;
use crate::seam;
use crate::{check, check_eq, with_view};
use ::portgraph::view::*;
use ::portgraph::*;
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// What a thread asks a view.
#[derive(Clone, Debug)]
pub enum Query {
    Contains(N),
    Node(N),
    Port(P),
    Pair(N, N),
    Outside(N),
    Neighbours(N, usize),
    Links(N, usize),
    Subports(N),
    Totals,
    Whole,
    /// Goes on with a clone.
    Clone,
    /// Goes on with the shared view.
    Shared,
    /// Builds a view over the view and asks about it.
    Nest(Plan),
}
impl Query {
    pub fn draw(ctx: &mut Ctx, e: &Expected, root: &Expected, f: &Forest) -> Query {
        let inside: Vec<N> = e.nodes.keys().copied().collect();
        let all: Vec<N> = root.nodes.keys().copied().collect();
        let ports: Vec<P> = e.ports.keys().copied().collect();
        let x = *ctx.pick(&all).unwrap_or(&0);
        let (y, z) = (ctx.pick(&inside).copied(), ctx.pick(&inside).copied());
        let q = ctx.pick(&ports).copied();
        match (ctx.draw(20), y, q) {
            (4 | 5, Some(y), _) => Query::Node(y),
            (6 | 7, _, Some(q)) => Query::Port(q),
            (8, Some(y), _) => Query::Pair(y, z.unwrap_or(y)),
            (9, ..) if !e.nodes.contains_key(&x) && root.nodes.contains_key(&x) => Query::Outside(x),
            (10, Some(y), _) => Query::Neighbours(y, ctx.draw(2)),
            (11, Some(y), _) => Query::Links(y, ctx.draw(2)),
            (12, Some(y), _) => Query::Subports(y),
            (13, ..) => Query::Totals,
            (14, ..) => Query::Whole,
            (15 | 16, ..) => Query::Clone,
            (17, ..) => Query::Shared,
            (18 | 19, Some(_), _) => Query::Nest(Plan::draw(ctx, e, f)),
            _ => Query::Contains(x),
        }
    }
}

fn answer<V>(v: &V, q: &Query, e: &Expected, root: &Expected, who: &str)
where
    V: MultiView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    match q {
        Query::Contains(x) => check_eq!(v.contains_node(n(*x)), e.nodes.contains_key(x), "contains_node", "{who}: contains_node({x})"),
        Query::Node(x) => check_node(v, e, *x, who),
        Query::Port(q) => check_port(v, e, *q, who),
        Query::Pair(a, b) => check_pair(v, e, *a, *b, who),
        Query::Outside(x) => check_outside_of(v, *x, root, who),
        Query::Neighbours(x, d) => {
            let want = sorted(e.node_links(*x, *d).iter().map(|(_, b)| e.node_of(b.0)));
            check_eq!(sorted(ix(v.neighbours(n(*x), dir(*d)))), want, "neighbours", "{who}: neighbours({x}, {d})");
        }
        Query::Links(x, d) => {
            check_eq!(sorted(eps(v.links(n(*x), dir(*d)))), sorted(e.node_links(*x, *d)), "links", "{who}: links({x}, {d})");
        }
        Query::Subports(x) => {
            let subs: Vec<Ep> = v.all_subports(n(*x)).map(|s| s.ep()).collect();
            for (s, _) in e.node_links(*x, IN).into_iter().chain(e.node_links(*x, OUT)) {
                check!(subs.contains(&s), "subports", "{who}: linked subport {s:?} of {x} is not listed in {subs:?}");
            }
            for s in subs {
                check_eq!(v.subport_link(V::LinkEndpoint::of(s)).map(|t| t.ep()), e.links.get(&s).copied(), "subport_link", "{who}: subport_link({s:?})");
            }
        }
        Query::Totals => check_totals(v, e, who),
        Query::Whole => {
            let absent: Vec<N> = root.nodes.keys().copied().collect();
            let absent_p: Vec<P> = root.ports.keys().copied().collect();
            check_view(v, e, who, &absent, &absent_p)
        }
        Query::Clone | Query::Shared | Query::Nest(_) => {}
    }
}

/// One thread of a run.
pub struct Client {
    pub queries: Vec<(Query, Option<u64>)>,
}
impl Client {
    /// `faults`: percentage of queries in which caller code panics.
    pub fn draw(ctx: &mut Ctx, e: &Expected, root: &Expected, f: &Forest, faults: usize) -> Client {
        let count = ctx.range(2, 12);
        // Questions that fill the caches come first.
        let early = ctx.draw(6);
        let all: Vec<N> = root.nodes.keys().copied().collect();
        let queries = (0..count)
            .map(|i| {
                let q = match ctx.pick(&all).copied() {
                    Some(x) if i < early => {
                        if ctx.chance(20) {
                            Query::Clone
                        } else {
                            Query::Contains(x)
                        }
                    }
                    _ => Query::draw(ctx, e, root, f),
                };
                let k = ctx.chance(faults).then(|| match ctx.draw(3) {
                    0 => ctx.draw(4) as u64,
                    1 => ctx.draw(20) as u64,
                    _ => ctx.draw(120) as u64,
                });
                (q, k)
            })
            .collect();
        Client { queries }
    }
    fn run<V, E: EpT>(&self, v: &V, e: &Expected, root: &Expected, sc: (&Hierarchy, &Forest), who: &str, hits: &AtomicU64)
    where
        V: MultiView<PortOffsetBase = u16, LinkEndpoint = E> + Clone + Sync,
    {
        let mut own: Option<V> = None;
        for (q, k) in &self.queries {
            let mut next = None;
            let mut body = || {
                let v = own.as_ref().unwrap_or(v);
                match q {
                    Query::Clone => next = Some(Some(v.clone())),
                    Query::Shared => next = Some(None),
                    Query::Nest(plan) => {
                        let e2 = plan.expected(e, sc.1);
                        let m = Multi(v);
                        let base = Erased::<E>::new(v, Some(&m));
                        with_view!(plan, base, sc.0, |w| {
                            for x in e2.nodes.keys().take(3) {
                                check_node(&w, &e2, *x, &format!("{} over {who}", plan.label()));
                            }
                            check_eq!(w.node_count(), e2.nodes.len(), "node_count", "{} over {who}: node_count", plan.label());
                        });
                    }
                    _ => answer(v, q, e, root, who),
                }
            };
            match k {
                None => body(),
                Some(k) => {
                    seam::arm(*k);
                    let r = catch_unwind(AssertUnwindSafe(body));
                    seam::disarm();
                    if let Err(payload) = r {
                        if payload.is::<InjectedPanic>() {
                            hits.fetch_add(1, Ordering::SeqCst);
                            next = None;
                        } else {
                            std::panic::resume_unwind(payload);
                        }
                    }
                }
            }
            if let Some(x) = next {
                own = x;
            }
        }
    }
}

/// Several threads over one view; afterwards the view is judged as a whole.
pub fn share<V, E: EpT>(ctx: &mut Ctx, v: &V, e: &Expected, root: &Expected, sc: (&Hierarchy, &Forest), faults: usize, who: &str)
where
    V: MultiView<PortOffsetBase = u16, LinkEndpoint = E> + Clone + Sync,
{
    let threads = *ctx.pick(&[2, 1, 3, 4]).unwrap();
    ctx.op(["", "one thread", "two threads", "three threads", "four threads"][threads]);
    let clients: Vec<Client> = (0..threads).map(|_| Client::draw(ctx, e, root, sc.1, faults)).collect();
    for (i, c) in clients.iter().enumerate() {
        ctx.log(|| format!("thread {i} asks {:?}", c.queries));
    }
    let hits = AtomicU64::new(0);
    let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = clients
        .iter()
        .map(|c| {
            let hits = &hits;
            Box::new(move || c.run(v, e, root, sc, who, hits)) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    coop::run(ctx, jobs);
    for _ in 0..hits.load(Ordering::SeqCst) {
        ctx.fault("panic in caller code");
    }
    answer(v, &Query::Whole, e, root, &format!("{who} afterwards"));
    check_subports(v, e, who);
    let c = v.clone();
    answer(&c, &Query::Whole, e, root, &format!("clone of {who} afterwards"));
}

/// The views can be shared by threads.
#[allow(dead_code)]
fn shareable<'a>() {
    fn is<T: Send + Sync>() {}
    is::<PortGraph>();
    is::<MultiPortGraph>();
    is::<Hierarchy>();
    is::<Weights<u32, u32>>();
    is::<Region<'a, &'a PortGraph>>();
    is::<Region<'a, &'a MultiPortGraph>>();
    is::<FlatRegion<'a, &'a PortGraph>>();
    is::<Region<'a, Region<'a, &'a MultiPortGraph>>>();
}

pub const P14: CheckDef = CheckDef {
    id: "P14",
    f: p14,
    quick_runs: 80_000,
    thorough_runs: 1_600_000,
    about: "a graph and its hierarchy are changed by interleaved clients through crashes and restarts; at random moments regions and flat regions are built over the graph, custom graphs and other views, and up to four threads share, clone and nest one of them, asking membership, link, subport and whole-view questions, while the schedule decides at every lock operation and call into caller code which thread goes on; every answer is compared with the model and no schedule may leave all threads waiting",
    real: "Region (with its cache and lock), FlatRegion, the other views, PortGraph, MultiPortGraph, Hierarchy; real threads",
    stub: "the lock primitive (a wrapper of the standard lock that reports to the scheduler), filters and custom graphs (simulated caller code)",
    assumes: &[
        "the reference model states the intended behaviour",
        "the threads only interact through the lock of the cache (other memory accesses are not scheduling points)",
        "regions are only built where the hierarchy nodes below the root belong to the viewed graph",
    ],
};
const KINDS: [&str; 2] = ["Region", "FlatRegion"];
fn p14(ctx: &mut Ctx) {
    match ctx.draw(8) {
        7 => views(ctx, &KINDS),
        k if k % 2 == 0 => regions::<PortGraph>(ctx),
        _ => regions::<MultiPortGraph>(ctx),
    }
}
fn regions<G: Gr>(ctx: &mut Ctx) {
    let mix = scene_mix(ctx, &[5, 8, 12]);
    ctx.max_steps = ctx.range(4, if ctx.thorough { 50 } else { 30 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(4) {
            gather(ctx, &s, &KINDS, 0);
        }
        if ctx.chance(4) {
            direct(ctx, &s);
        }
    }
    gather(ctx, &s, &KINDS, 0);
    gather(ctx, &s, &KINDS, 0);
}
/// The questions that only regions answer, and equality of regions.
fn direct<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    let all: Vec<N> = s.w.m.e.nodes.keys().copied().collect();
    let Some(&r) = ctx.pick(&all) else { return };
    ctx.op("descendants");
    let mut asked: Vec<(N, Region<'_, &G>)> = vec![(r, Region::new(&s.w.g, &s.h, n(r)))];
    for _ in 0..ctx.range(1, 20) {
        let x = *ctx.pick(&all).unwrap();
        let k = ctx.draw(asked.len());
        let (r, v) = &asked[k];
        ctx.log(|| format!("is {x} below {r}?"));
        check_eq!(v.is_descendant(n(x)), s.f.is_ancestor_or_self(*r, x), "is_descendant", "region {r}: is_descendant({x})");
        match ctx.draw(12) {
            10 if asked.len() < 5 => asked.push((*r, v.clone())),
            11 if asked.len() < 5 => asked.push((x, Region::new(&s.w.g, &s.h, n(x)))),
            _ => {}
        }
    }
    for (a, v) in &asked {
        for (b, w) in &asked {
            check_eq!(v == w, a == b, "equality", "regions {a} and {b} of one hierarchy are equal");
        }
    }
    let (x, y) = (r, *ctx.pick(&all).unwrap());
    #[allow(deprecated)]
    let v = FlatRegion::new(&s.w.g, &s.h, n(x));
    let w = FlatRegion::new_with_root(&s.w.g, s.h.clone(), n(y));
    check_eq!(v == w, x == y, "equality", "flat regions {x} and {y} of one hierarchy are equal");
    check!(w != FlatRegion::new_without_root(&s.w.g, &s.h, n(y)), "equality", "a flat region equals one without its root");
    check!(v.includes_root() && v.contains_node(n(x)), "includes_root", "a flat region made with new does not include its root");
}
/// Threads over a view of the scene.
pub fn gather<G: Gr>(ctx: &mut Ctx, s: &Scene<G>, kinds: &[&str], faults: usize) {
    let e = &s.w.m.e;
    let multi = (&s.w.g as &dyn Any).downcast_ref::<MultiPortGraph>();
    let m = multi.map(Multi);
    let base = Erased::<G::E>::new(&s.w.g, m.as_ref().map(|m| m as &dyn DynMulti));
    let sc = (&s.h, &s.f);
    let draw = |ctx: &mut Ctx, e: &Expected| {
        let mut plan = Plan::draw(ctx, e, &s.f);
        for _ in 0..8 {
            if kinds.contains(&plan.label()) {
                break;
            }
            plan = Plan::draw(ctx, e, &s.f);
        }
        plan
    };
    let plan = draw(ctx, e);
    let e2 = plan.expected(e, &s.f);
    ctx.op(plan.label());
    ctx.log(|| format!("{plan:?}"));
    match (ctx.draw(4), multi) {
        (0, Some(g)) => with_view!(&plan, g, &s.h, |v| share(ctx, &v, &e2, e, sc, faults, plan.label())),
        (1, _) => {
            // The view over another one.
            let below = Plan::draw(ctx, e, &s.f);
            let e2 = below.expected(e, &s.f);
            let plan = draw(ctx, &e2);
            let e3 = plan.expected(&e2, &s.f);
            let who = format!("{} over {}", plan.label(), below.label());
            ctx.log(|| format!("{plan:?} over {below:?}"));
            with_view!(&below, base, &s.h, |v| {
                let m = Multi(&v);
                let base = Erased::<G::E>::new(&v, Some(&m));
                with_view!(&plan, base, &s.h, |v| share(ctx, &v, &e3, e, sc, faults, &who));
            });
        }
        _ => with_view!(&plan, base, &s.h, |v| share(ctx, &v, &e2, e, sc, faults, plan.label())),
    }
}
