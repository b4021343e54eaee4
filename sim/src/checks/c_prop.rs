//! Random graph strategies of the proptest feature.

use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::model::*;
use crate::{check, check_eq};
use ::portgraph::proptest::*;
use ::portgraph::*;
use ::proptest::arbitrary::any_with;
use ::proptest::strategy::{BoxedStrategy, Just, Strategy, ValueTree};
use ::proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

pub const P25: CheckDef = CheckDef {
    id: "P25",
    f: p25,
    quick_runs: 60_000,
    thorough_runs: 1_200_000,
    about: "several generation and shrinking sessions over strategies with drawn limits go on interleaved; every value is compared with the limits, taken apart into a model that all queries of the graph must agree with, and now and then changed further; every session has a twin with the same seed but other hash keys, sessions crash and are repeated from their seed and the decisions taken so far",
    real: "gen_portgraph, gen_multiportgraph, gen_node_index, Arbitrary of both graphs, the strategies and value trees of proptest, std hash maps with different keys",
    stub: "the random bytes behind proptest (seeded), the decisions to simplify or complicate, the source of hash keys, the strategy given to gen_node_index in some runs (graphs with a past, rejections)",
    assumes: &["the reference model states the intended behaviour", "proptest itself is deterministic for a seed"],
};

#[derive(Clone, Debug, PartialEq)]
struct Limits {
    nodes: usize,
    ports: usize,
    edges: usize,
    /// Seed of the session.
    seed: u64,
    rejects: u32,
}
impl Limits {
    fn draw(ctx: &mut Ctx) -> Limits {
        let nodes = match ctx.draw(8) {
            0 => 1,
            1 => 2,
            7 => ctx.range(20, 120),
            _ => ctx.range(1, 12),
        };
        let ports = match ctx.draw(8) {
            0 => 0,
            1 => 1,
            7 => ctx.range(6, 40),
            _ => ctx.range(1, 5),
        };
        let edges = match ctx.draw(8) {
            0 => ctx.range(0, 1),
            7 => ctx.range(30, 200),
            _ => ctx.range(0, 25),
        };
        Limits { nodes, ports, edges, seed: ctx.draw(1 << 30) as u64, rejects: ctx.range(1, 40) as u32 }
    }
    fn params(&self) -> GenPortGraphParams {
        GenPortGraphParams { max_n_nodes: self.nodes, max_n_ports: self.ports, max_n_edges: self.edges }
    }
    fn runner(&self) -> TestRunner {
        let mut r = Rng::new(self.seed);
        let bytes: Vec<u8> = (0..32).map(|_| r.next() as u8).collect();
        let config = Config { failure_persistence: None, max_local_rejects: self.rejects, ..Config::default() };
        TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
    }
    /// Compares a generated graph with the limits and with itself.
    fn judge<G: Gr>(&self, g: &G, who: &str) -> Expected {
        let e = taken_apart(g);
        check!(!e.nodes.is_empty() && e.nodes.len() <= self.nodes.max(1), "nodes", "{who}: {} nodes, where {} were allowed", e.nodes.len(), self.nodes);
        for (x, ps) in &e.nodes {
            check!(ps.iter().all(|v| v.len() <= self.ports), "ports", "{who}: ports {ps:?} of {x}, where {} were allowed per direction", self.ports);
        }
        check!(e.links.len() / 2 <= self.edges, "edges", "{who}: {} links, where {} were allowed", e.links.len() / 2, self.edges);
        agree(g, &e, who);
        e
    }
}
/// What a few queries tell about a graph.
fn taken_apart<G: Gr>(g: &G) -> Expected {
    let mut m = Model::default();
    for x in g.nodes_iter() {
        m.add_node(x.index(), px(g.inputs(x)), px(g.outputs(x)));
    }
    let outs: Vec<P> = m.e.ports.iter().filter(|(_, v)| v.1 == OUT).map(|(q, _)| *q).collect();
    for q in outs {
        for (a, b) in g.port_links(p(q)) {
            m.link(a.ep(), b.ep());
        }
    }
    m.e
}
fn agree<G: Gr>(g: &G, e: &Expected, who: &str) {
    let (a, b) = (e.bound_nodes(), e.bound_ports());
    check_view(g, e, who, &[a, a + 1], &[b, b + 1]);
    g.g_check_subports(e, who);
}

/// One session of generating and shrinking a value.
trait Session {
    fn step(&mut self, ctx: &mut Ctx);
}
struct Gen<T> {
    who: String,
    make: Box<dyn Fn() -> Option<Box<dyn ValueTree<Value = T>>>>,
    judge: Box<dyn Fn(&mut Ctx, &T, &str)>,
    trees: Vec<Box<dyn ValueTree<Value = T>>>,
    done: Vec<(bool, bool)>,
}
impl<T: PartialEq + std::fmt::Debug + 'static> Gen<T> {
    fn new<S>(who: String, lim: &Limits, strategy: impl Fn() -> S + 'static, judge: impl Fn(&mut Ctx, &T, &str) + 'static) -> Self
    where
        S: Strategy<Value = T>,
        S::Tree: 'static,
    {
        let lim = lim.clone();
        let make = move || match strategy().new_tree(&mut lim.runner()) {
            Ok(t) => Some(Box::new(t) as Box<dyn ValueTree<Value = T>>),
            Err(_) => None,
        };
        let trees: Vec<_> = [make(), make()].into_iter().flatten().collect();
        check!(trees.len() != 1, "reproducible", "{who}: one of two sessions with the same seed was given up");
        Gen { who, make: Box::new(make), judge: Box::new(judge), trees, done: vec![] }
    }
    fn go(t: &mut Box<dyn ValueTree<Value = T>>, simpler: bool) -> bool {
        if simpler {
            t.simplify()
        } else {
            t.complicate()
        }
    }
    fn compare(&self, ctx: &mut Ctx) {
        let all: Vec<T> = self.trees.iter().map(|t| t.current()).collect();
        (self.judge)(ctx, &all[0], &self.who);
        for t in &all[1..] {
            check!(*t == all[0], "reproducible", "{}: the same seed and decisions {:?} give {t:?} and {:?}", self.who, self.done, all[0]);
        }
    }
}
impl<T: PartialEq + std::fmt::Debug + 'static> Session for Gen<T> {
    fn step(&mut self, ctx: &mut Ctx) {
        if self.trees.is_empty() {
            ctx.op("rejected strategy");
            return;
        }
        match ctx.draw(12) {
            0..=6 => {
                // Once simplified values are exhausted, a test driver complicates.
                let simpler = ctx.draw(10) < 7;
                ctx.op(if simpler { "simplify" } else { "complicate" });
                let got: Vec<bool> = self.trees.iter_mut().map(|t| Self::go(t, simpler)).collect();
                ctx.log(|| format!("{}: {} {got:?}", self.who, if simpler { "simplify" } else { "complicate" }));
                check!(got.iter().all(|b| *b == got[0]), "reproducible", "{}: decision {simpler} after {:?} gives {got:?}", self.who, self.done);
                self.done.push((simpler, got[0]));
                self.compare(ctx);
            }
            7 => {
                ctx.fault("crash and repetition from the seed");
                let k = ctx.draw(self.trees.len());
                let Some(mut t) = (self.make)() else { fail_reject(&self.who) };
                for (simpler, want) in &self.done {
                    check_eq!(Self::go(&mut t, *simpler), *want, "reproducible", "{}: decisions {:?} repeated", self.who, self.done);
                }
                self.trees[k] = t;
                self.compare(ctx);
            }
            8 => {
                ctx.op("start over");
                self.done.clear();
                self.trees = [(self.make)(), (self.make)()].into_iter().flatten().collect();
                check_eq!(self.trees.len(), 2, "reproducible", "{}: sessions started again", self.who);
                self.compare(ctx);
            }
            _ => {
                ctx.op("current");
                self.compare(ctx);
            }
        }
    }
}
fn fail_reject(who: &str) -> ! {
    violate("reproducible", format!("{who}: a session with the same seed was given up"))
}
/// A generated graph goes on like any other graph.
fn go_on<G: Gr>(ctx: &mut Ctx, g: &G, e: &Expected) {
    if !ctx.chance(6) {
        return;
    }
    ctx.op("changes of a generated graph");
    let mix = Mix::draw(ctx, 12).build();
    let mut w = World::new(ctx, mix);
    w.g = g.clone();
    for (x, [a, b]) in &e.nodes {
        w.m.add_node(*x, a.clone(), b.clone());
    }
    for (a, b) in e.edges() {
        w.m.link(a, b);
    }
    w.check();
    for _ in 0..ctx.range(1, 10) {
        w.step(ctx);
    }
    w.check();
}
fn session(ctx: &mut Ctx) -> Box<dyn Session> {
    let l = Limits::draw(ctx);
    let kind = ctx.draw(8);
    ctx.log(|| format!("new session of kind {kind} with {l:?}"));
    ctx.state(fingerprint(&(kind, l.nodes, l.ports, l.edges)));
    let (j, k) = (l.clone(), l.clone());
    let who = |s: &str| format!("{s}, at most {} nodes, {} ports, {} edges, seed {}", l.nodes, l.ports, l.edges, l.seed);
    macro_rules! graph {
        ($name:expr, $s:expr) => {
            Box::new(Gen::new(who($name), &l, $s, move |ctx, g, who| {
                let e = j.judge(g, who);
                ctx.state(fingerprint(&e));
                go_on(ctx, g, &e);
            }))
        };
    }
    match kind {
        0 | 1 => graph!("gen_portgraph", move || gen_portgraph(k.nodes, k.ports, k.edges)),
        2 | 3 => graph!("gen_multiportgraph", move || gen_multiportgraph(k.nodes, k.ports, k.edges)),
        4 => graph!("any PortGraph", move || any_with::<PortGraph>(k.params())),
        5 => graph!("any MultiPortGraph", move || any_with::<MultiPortGraph>(k.params())),
        6 => Box::new(Gen::new(who("gen_node_index"), &l, move || gen_node_index(gen_portgraph(k.nodes, k.ports, k.edges)), move |_, (g, x), who| {
            let e = j.judge(g, who);
            check!(e.nodes.contains_key(&x.index()), "node", "{who}: node {x:?} of {g:?}");
        })),
        _ => {
            // Graphs of the caller, some of which it rejects.
            let mix = Mix::draw(ctx, 12).build();
            let mut graphs = vec![];
            for _ in 0..ctx.range(1, 3) {
                let k = ctx.range(1, 25);
                let mut w = World::<PortGraph>::grown(ctx, mix.clone(), k);
                if w.m.e.nodes.is_empty() {
                    w.add_node(ctx, 1, 1);
                }
                graphs.push((w.g, w.m.e));
            }
            let modulus = ctx.range(1, 3);
            if modulus > 1 {
                ctx.fault("strategy that rejects values");
            }
            let own: Vec<PortGraph> = graphs.iter().map(|x| x.0.clone()).collect();
            let strategy = move || -> BoxedStrategy<(PortGraph, NodeIndex)> {
                let own = own.clone();
                let inner = (0..own.len(), 0..100usize).prop_filter("drawn", move |(_, k)| k % modulus == 0).prop_flat_map(move |(i, _)| Just(own[i].clone()));
                gen_node_index(inner).boxed()
            };
            Box::new(Gen::new(who("gen_node_index of the caller's graphs"), &l, strategy, move |_, (g, x), who| {
                let Some((_, e)) = graphs.iter().find(|(h, _)| h == g) else {
                    violate("graph", format!("{who}: {g:?} is none of the graphs given"))
                };
                check!(e.nodes.contains_key(&x.index()), "node", "{who}: node {x:?} of {g:?}");
            }))
        }
    }
}
/// Over enough seeds there are links, if there can be any.
fn some_links(ctx: &mut Ctx) {
    let l = Limits { nodes: ctx.range(1, 6), ports: ctx.range(1, 4), edges: ctx.range(1, 12), seed: 0, rejects: 9 };
    ctx.op("many seeds");
    ctx.log(|| format!("many seeds with {l:?}"));
    let (base, mut links) = (ctx.draw(1 << 30) as u64, [0, 0]);
    for k in 0..150 {
        let l = Limits { seed: base + k, ..l.clone() };
        let trees = (gen_portgraph(l.nodes, l.ports, l.edges).new_tree(&mut l.runner()), gen_multiportgraph(l.nodes, l.ports, l.edges).new_tree(&mut l.runner()));
        links[0] += trees.0.unwrap().current().link_count();
        links[1] += trees.1.unwrap().current().link_count();
    }
    check!(links.iter().all(|k| *k > 0), "some links", "150 seeds with {l:?} gave {links:?} links altogether");
}
fn p25(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 30 });
    let mut sessions: Vec<Box<dyn Session>> = (0..ctx.range(1, 3)).map(|_| session(ctx)).collect();
    while ctx.next_step() {
        let k = ctx.draw(sessions.len());
        match ctx.draw(60) {
            0 => some_links(ctx),
            1..=4 => sessions[k] = session(ctx),
            _ => sessions[k].step(ctx),
        }
    }
}
