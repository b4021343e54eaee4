//! Panics in code supplied by callers, and what is left afterwards.

use super::c_algo::{check_lines, convex_in, dominate, query, traverse};
use super::c_conc::gather;
use super::c_pet::{through, Pet};
use super::c_views::{enclose, look, scene_mix};
use super::{c_dyn, CheckDef};
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::model::*;
use crate::scene::*;
use crate::seam;
use crate::with_view;
use ::portgraph::algorithms::*;
use ::portgraph::view::*;
use ::portgraph::*;
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const P10: CheckDef = CheckDef {
    id: "P10",
    f: p10,
    quick_runs: 150_000,
    thorough_runs: 3_000_000,
    about: "a graph and its hierarchy are changed by interleaved clients through crashes and restarts; at random moments views (shared by up to four scheduled threads), traversals, dominator trees, static and dynamic convexity checkers, subgraphs and petgraph adaptors are used with caller code that panics at a drawn call, several times over the same objects; each panic must reach the caller, and all answers that follow are compared with the model",
    real: "Region, FlatRegion, FilteredGraph, Subgraph, Boundary, TopoSort, PostOrder, DominatorTree, TopoConvexChecker, LineConvexChecker, DynamicTopoConvexChecker, petgraph adaptors, the graphs underneath; real threads",
    stub: "filters, node and port iterators, secondary maps and custom graphs (simulated caller code, where panics are injected); the lock primitive (a wrapper of the standard lock)",
    assumes: &[
        "the reference model states the intended behaviour",
        "a traversal interrupted by a panic is dropped, not resumed",
        "only read-side operations are interrupted",
    ],
};
fn p10(ctx: &mut Ctx) {
    match ctx.draw(5) {
        0 => scenes::<PortGraph>(ctx),
        1 => scenes::<MultiPortGraph>(ctx),
        2 => checkers::<PortGraph>(ctx),
        3 => checkers::<MultiPortGraph>(ctx),
        _ => {
            if ctx.draw(2) == 0 {
                edits::<PortGraph>(ctx)
            } else {
                edits::<MultiPortGraph>(ctx)
            }
        }
    }
}

/// Runs `f` with a panic in the caller code that it reaches, at a drawn call.
/// Returns nothing if the panic was raised.
pub fn brittle<T>(ctx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    let most = *ctx.pick(&[8, 2, 60, 600, 4000]).unwrap();
    let k = ctx.draw(most) as u64;
    ctx.log(|| format!("panic at call {k} into caller code:"));
    seam::arm(k);
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
    let pending = seam::disarm();
    match r {
        Ok(x) => {
            if !pending {
                violate("panic swallowed", format!("caller code panicked at call {k}, but the panic did not reach the caller"));
            }
            Some(x)
        }
        Err(payload) if payload.is::<InjectedPanic>() => {
            ctx.fault("panic in caller code");
            ctx.log(|| "  it was raised".to_string());
            None
        }
        Err(payload) => resume_unwind(payload),
    }
}

const ALL: [&str; 5] = ["FilteredGraph", "NodeFiltered", "Subgraph", "Region", "FlatRegion"];

/// Views, traversals and algorithms over the same graph.
fn scenes<G: Pet>(ctx: &mut Ctx) {
    let mix = scene_mix(ctx, &[5, 8]);
    ctx.max_steps = ctx.range(4, if ctx.thorough { 40 } else { 24 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(8) {
            interrupted(ctx, &s);
        }
    }
    interrupted(ctx, &s);
    s.w.check();
}
fn interrupted<G: Pet>(ctx: &mut Ctx, s: &Scene<G>) {
    let pg = (&s.w.g as &dyn Any).downcast_ref::<PortGraph>();
    let kind = ctx.draw(7);
    let go = |ctx: &mut Ctx| match (kind, pg) {
        (1, _) => look(ctx, s, &ALL),
        (2, _) => traverse(ctx, s),
        (3, Some(g)) => dominate(ctx, g, &s.w.m.e),
        (4, _) => enclose(ctx, s),
        (3 | 5, _) => through(ctx, s),
        _ => one_view(ctx, s),
    };
    ctx.op(["threads over a view", "views", "traversals", "dominators", "subgraphs", "petgraph", "one view"][kind]);
    if kind == 0 {
        return gather(ctx, s, &ALL, 40);
    }
    if kind == 6 {
        return go(ctx);
    }
    for _ in 0..ctx.range(1, 3) {
        brittle(ctx, go);
    }
    go(ctx);
}
/// One view, interrupted again and again.
fn one_view<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    let e = &s.w.m.e;
    let plan = Plan::draw(ctx, e, &s.f);
    let e2 = plan.expected(e, &s.f);
    let who = format!("{} after panics", plan.label());
    ctx.log(|| format!("{plan:?}"));
    let base = Erased::<G::E>::new(&s.w.g, None);
    let all: Vec<N> = e.nodes.keys().copied().collect();
    let inside: Vec<N> = e2.nodes.keys().copied().collect();
    with_view!(&plan, base, &s.h, |v| {
        for _ in 0..ctx.range(1, 6) {
            let (x, y) = (ctx.pick(&all).copied(), ctx.pick(&inside).copied());
            brittle(ctx, |ctx| match (ctx.draw(4), x, y) {
                (0, Some(x), _) => drop(v.contains_node(n(x))),
                (1, _, Some(y)) => check_node(&v, &e2, y, &who),
                (2, ..) => check_totals(&v, &e2, &who),
                _ => check_view(&v, &e2, &who, &all, &[]),
            });
            if ctx.chance(50) {
                check_totals(&v, &e2, &who);
            }
        }
        check_view(&v, &e2, &who, &all, &[]);
    });
}

/// Static checkers that are interrupted while they are built and asked.
fn checkers<G: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[6, 9, 14]).acyclic();
    mix.w[17] = 0;
    ctx.max_steps = ctx.range(4, if ctx.thorough { 50 } else { 30 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(6) {
            examine(ctx, &s);
        }
    }
    examine(ctx, &s);
    s.w.check();
}
fn examine<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    ctx.op("static checkers");
    if ctx.chance(20) {
        brittle(ctx, |ctx| convex_in(ctx, s));
        convex_in(ctx, s);
        return;
    }
    let e = &s.w.m.e;
    let base = Erased::<G::E>::new(&s.w.g, None);
    if ctx.chance(60) {
        return interrogate(ctx, base, e, "custom graph");
    }
    let plan = Plan::draw(ctx, e, &s.f);
    let e2 = plan.expected(e, &s.f);
    ctx.log(|| format!("view: {plan:?}"));
    with_view!(&plan, base, &s.h, |v| interrogate(ctx, &v, &e2, plan.label()));
}
fn interrogate<V>(ctx: &mut Ctx, g: V, e: &Expected, who: &str)
where
    V: LinkView<PortOffsetBase = u16> + Clone,
    V::LinkEndpoint: EpT,
{
    brittle(ctx, |_| drop(TopoConvexChecker::new(g.clone())));
    brittle(ctx, |_| drop(<LineConvexChecker<V> as CreateConvexChecker<V>>::new_convex_checker(g.clone())));
    let topo = TopoConvexChecker::new(g.clone());
    let line = <LineConvexChecker<V> as CreateConvexChecker<V>>::new_convex_checker(g.clone());
    let other = line.clone();
    for _ in 0..ctx.range(1, 6) {
        brittle(ctx, |ctx| query(ctx, &topo, [&line, &other], &g, e, who));
        if ctx.chance(70) {
            query(ctx, &topo, [&line, &other], &g, e, who);
        }
    }
    let late = line.clone();
    query(ctx, &topo, [&line, &late], &g, e, who);
    check_lines(&line, e, who);
}

/// A dynamic checker that is interrupted between edits.
fn edits<G: Gr>(ctx: &mut Ctx) {
    let mut mix = scene_mix(ctx, &[5, 8, 12]).acyclic();
    mix.w[2] *= 2;
    mix.w[5] = 0;
    mix.w[6] = 0;
    mix.w[14] = mix.w[14].min(1);
    mix.w[15] = mix.w[15].min(1);
    mix.w[16] = mix.w[16].min(1);
    ctx.max_steps = ctx.range(6, if ctx.thorough { 60 } else { 30 });
    let mut w = World::<c_dyn::Dyn<G>>::new(ctx, mix);
    while ctx.next_step() {
        if ctx.chance(20) {
            c_dyn::against(ctx, &mut w);
        } else {
            w.step(ctx);
        }
        if ctx.chance(30) {
            ctx.op("dynamic checker");
            brittle(ctx, |ctx| c_dyn::ask(ctx, &w));
            c_dyn::ask(ctx, &w);
            w.check();
        }
    }
    c_dyn::ask(ctx, &w);
    w.check();
}
