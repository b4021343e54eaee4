//! The hierarchy and the lowest common ancestors.

use super::CheckDef;
use crate::engine::*;
use crate::gr::*;
use crate::hier::*;
use crate::model::Expected;
use crate::scene::Plan;
use crate::{check, check_eq, with_view};
use ::portgraph::algorithms::{lca, LCA};
use ::portgraph::*;
use std::collections::BTreeSet;

pub const P06: CheckDef = CheckDef {
    id: "P06",
    f: p06,
    quick_runs: 100_000,
    thorough_runs: 2_000_000,
    about: "one client attaches, inserts, detaches, removes, rekeys and swaps nodes of a hierarchy, mostly with arguments in unfortunate relations, through clones, shrinking, and crashes and restarts from checkpoints; every query is compared with a forest of plain lists after every step",
    real: "Hierarchy with all its queries and mutators, serde codecs",
    stub: "the durable store of checkpoints (memory)",
    assumes: &["the reference model (lists of children) states the intended behaviour", "rekeying onto an occupied node is documented to panic and is not simulated"],
};

fn p06(ctx: &mut Ctx) {
    let (upto, max) = match ctx.draw(20) {
        0..=9 => (6, 60),
        10..=15 => (ctx.range(2, 4), 60),
        16..=18 => (14, 100),
        _ => (60, 200),
    };
    ctx.max_steps = ctx.range(10, if ctx.thorough { max * 2 } else { max });
    let every = *ctx.pick(&[1, 4]).unwrap();
    let large = ctx.draw(100) == 99;
    let upto = if large { *ctx.pick(&[20, 36, 70, 130, 260, 300]).unwrap() } else { upto };
    let mut w = HWorld::new(ctx, upto);
    let mut i = 0;
    if large {
        w.populate(ctx);
        ctx.shorten(20);
    }
    w.check();
    while ctx.next_step() {
        w.step(ctx);
        i += 1;
        if i % every == 0 || w.rejected {
            w.check();
        }
    }
    w.check();
}

pub fn rejections(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(10, 80);
    let upto = ctx.range(2, 9);
    let mut w = HWorld::new(ctx, upto);
    while ctx.next_step() {
        w.step(ctx);
        if w.rejected || ctx.chance(20) {
            w.check();
        }
    }
    w.check();
}

pub const P18: CheckDef = CheckDef {
    id: "P18",
    f: p18,
    quick_runs: 120_000,
    thorough_runs: 2_400_000,
    about: "a hierarchy reached by a random history (restarts included), in which the nodes of a graph and unused indices are mixed, is turned into an LCA structure, through the graph or a drawn view of it whose nodes may have hidden ancestors, and every pair of nodes is asked in a random order; sometimes deep chains or bushy trees",
    real: "Hierarchy, lca(), LCA, PortGraph or MultiPortGraph nodes and their views",
    stub: "none",
    assumes: &["the reference model (chains of parents) states the intended behaviour", "asked nodes are nodes of the graph or view that the structure was built for"],
};

fn p18(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        ancestors::<PortGraph>(ctx)
    } else {
        ancestors::<MultiPortGraph>(ctx)
    }
}
fn ancestors<G: Gr>(ctx: &mut Ctx) {
    use crate::churn::*;
    let size = *ctx.pick(&[6, 10, 20, 40]).unwrap();
    let mut mix = Mix::draw(ctx, size).build();
    mix.max_ports = 2;
    mix.w[0] = 60;
    mix.w[13] = 0;
    mix.w[17] = 0;
    mix.max_nodes = size;
    ctx.max_steps = ctx.range(2, size * 2);
    let mut w = World::<G>::new(ctx, mix);
    let mut h = Hierarchy::new();
    let mut f = Forest::default();
    let shape = ctx.draw(3);
    while ctx.next_step() {
        let larger = w.mix.bulk.is_some();
        w.step(ctx);
        // Follow the index changes of the graph.
        let mut restarted = false;
        for ev in std::mem::take(&mut w.events) {
            match ev {
                Ev::NodeRemoved(x, _) => {
                    h.remove(n(x));
                    f.remove(x);
                }
                Ev::NodeMoved(a, b) => {
                    h.rekey(n(a), n(b));
                    f.rename(|z| if z == a { b } else { z });
                }
                Ev::NodesSwapped(a, b) => {
                    h.swap_nodes(n(a), n(b));
                    f.rename(|z| if z == a { b } else if z == b { a } else { z });
                }
                Ev::Restarted => restarted = true,
                _ => {}
            }
        }
        if restarted {
            for x in 0..f.bound() {
                if !w.m.e.nodes.contains_key(&x) {
                    h.remove(n(x));
                    f.remove(x);
                }
            }
        }
        let nodes: Vec<N> = w.m.e.nodes.keys().copied().collect();
        if larger {
            for (x, q, _) in tree(ctx, &nodes) {
                check!(h.push_child(n(x), n(q)).is_ok(), "attach", "push_child({x}, {q})");
                let at = f.kids(q).len();
                f.attach(x, q, at);
            }
        }
        for _ in 0..3 {
            if nodes.is_empty() {
                break;
            }
            let (x, q) = (*ctx.pick(&nodes).unwrap(), *ctx.pick(&nodes).unwrap());
            let q = match shape {
                0 => q,
                // Deep chains.
                1 => nodes.iter().copied().max_by_key(|y| (f.ancestors(*y).len(), *y)).unwrap_or(q),
                _ => nodes[0],
            };
            if ctx.chance(70) {
                if !f.parent.contains_key(&x) && !f.is_ancestor_or_self(x, q) {
                    check!(h.push_child(n(x), n(q)).is_ok(), "attach", "push_child({x}, {q})");
                    let at = f.kids(q).len();
                    f.attach(x, q, at);
                }
            } else {
                h.detach(n(x));
                f.detach(x);
            }
        }
        if ctx.chance(25) {
            ask_any(ctx, &w, &h, &f);
        }
    }
    ask_any(ctx, &w, &h, &f);
}

/// Asks about the graph, or about a view whose nodes may have hidden ancestors.
fn ask_any<G: Gr>(ctx: &mut Ctx, w: &crate::churn::World<G>, h: &Hierarchy, f: &Forest) {
    if !ctx.chance(35) {
        return ask(ctx, &w.g, h, f, &w.m.e);
    }
    let plan = Plan::draw(ctx, &w.m.e, f);
    let e = plan.expected(&w.m.e, f);
    ctx.op(plan.label());
    ctx.log(|| format!("{plan:?}"));
    with_view!(&plan, &w.g, h, |v| ask(ctx, &v, h, f, &e));
}

fn ask<V: LinkView>(ctx: &mut Ctx, g: &V, h: &Hierarchy, f: &Forest, e: &Expected) {
    let nodes: Vec<N> = e.nodes.keys().copied().collect();
    ctx.op("build LCA");
    let l: LCA = lca(g, h);
    let l = if ctx.chance(30) { l.clone() } else { l };
    ctx.state(fingerprint(f));
    ctx.log(|| format!("LCA of {f:?} over {nodes:?}"));
    let mut pairs: Vec<(N, N)> = nodes.iter().flat_map(|a| nodes.iter().map(move |b| (*a, *b))).collect();
    if pairs.len() > 400 {
        ctx.shuffle(&mut pairs);
        pairs.truncate(400);
    }
    for (a, b) in pairs {
        let anc: BTreeSet<N> = f.ancestors(a).into_iter().collect();
        let want = f.ancestors(b).into_iter().find(|x| anc.contains(x));
        check_eq!(l.is_ancestor(n(a), n(b)), f.is_ancestor_or_self(a, b), "is_ancestor", "is_ancestor({a}, {b}) in {f:?}");
        check_eq!(l.lca(n(a), n(b)).map(|x| x.index()), want, "lca", "lca({a}, {b}) in {f:?}");
    }
    for a in &nodes {
        let want = *f.ancestors(*a).last().unwrap();
        check_eq!(l.root(n(*a)).index(), want, "root", "root({a}) in {f:?}");
    }
}
