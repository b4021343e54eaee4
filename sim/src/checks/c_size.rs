//! Long chains, deep hierarchies, wide nodes and graphs with many paths.

use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::model::*;
use crate::scene::*;
use crate::seam::{self, tick};
use crate::{check, check_eq, fail};
use ::petgraph::visit::{Bfs, Dfs, DfsPostOrder, IntoNodeIdentifiers, Topo};
use ::portgraph::algorithms::*;
use ::portgraph::boundary::HasBoundary;
use ::portgraph::render::{DotFormat, MermaidFormat};
use ::portgraph::unmanaged::UnmanagedDenseMap;
use ::portgraph::view::*;
use ::portgraph::*;
use bitvec::vec::BitVec;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const P26: CheckDef = CheckDef {
    id: "P26",
    f: p26,
    quick_runs: 8_000,
    thorough_runs: 250_000,
    about: "a graph of some thousands of nodes (chain, ladder, layers, star, comb, parallel links, random) or a hierarchy of up to 120 000 nodes is built in a drawn order and given to a thread with a stack of 160 kB, which performs drawn traversals, dominators, convexity checks, edits through the dynamic checker, boundary orderings, copies, checkpoints, removals, renderings, region and ancestor queries; results are compared with linear-time oracles, and the calls that reach the custom graph and the filters are counted against a bound in the size of the graph",
    real: "the whole library on large inputs",
    stub: "the stack of the calling thread (small), the custom graph and the filters that count the calls",
    assumes: &["a run that does not end within 40 s of processor time is not usable", "one node may cost the square of its number of ports"],
};

/// Stack of the thread that uses the library.
const STACK: usize = 160 << 10;

fn p26(ctx: &mut Ctx) {
    // The stack is the fault: what nests with the length of a path overflows it.
    ctx.fault("small stack");
    let hash_seed = ctx.hash_seed;
    let res = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                seed_thread(hash_seed ^ 0x51);
                catch_unwind(AssertUnwindSafe(|| body(ctx))).map_err(classify)
            })
            .expect("spawn simulated thread")
            .join()
            .unwrap_or_else(|_| fail!("lost thread", "the simulated thread was lost"))
    });
    match res {
        Ok(()) => {}
        Err(Caught::Violation(v)) => violate(&v.class, v.msg),
        Err(Caught::Injected) => fail!("injected-panic-escaped", "an injected panic escaped"),
        Err(Caught::Panic(msg, loc)) => {
            let file = loc.split(':').next().unwrap_or("").to_string();
            fail!(&format!("panic in {file}"), "unexpected panic at {loc}: {msg}")
        }
    }
}
fn body(ctx: &mut Ctx) {
    match ctx.draw(10) {
        0 => deep(ctx, true),
        1 | 2 => deep(ctx, false),
        3..=6 => graph::<PortGraph>(ctx),
        _ => graph::<MultiPortGraph>(ctx),
    }
}

/// An acyclic graph by positions in a topological order.
struct Shape {
    name: &'static str,
    n: usize,
    edges: Vec<(usize, usize)>,
}
fn shape(ctx: &mut Ctx, r: &mut Rng) -> Shape {
    let n = if ctx.chance(15) { ctx.range(2, 60) } else { ctx.range(2500, if ctx.thorough { 12_000 } else { 5000 }) };
    let mut e = vec![];
    let name = match ctx.draw(8) {
        0 => {
            e.extend((1..n).map(|i| (i - 1, i)));
            "chain"
        }
        1 => {
            // The number of paths grows exponentially.
            e.extend((1..n).map(|i| (i - 1, i)));
            e.extend((2..n).map(|i| (i - 2, i)));
            "ladder"
        }
        2 => {
            let w = ctx.range(2, 6);
            for i in w..n {
                let layer = (i / w - 1) * w;
                e.extend((layer..layer + w).map(|j| (j, i)));
            }
            "layers"
        }
        3 => {
            let hub = n.min(1200);
            if ctx.draw(2) == 0 {
                e.extend((1..hub).map(|i| (0, i)));
            } else {
                e.extend((0..hub - 1).map(|i| (i, hub - 1)));
            }
            e.extend((hub..n).map(|i| (i - 1, i)));
            "star"
        }
        4 => {
            e.extend((2..n).map(|i| if i % 2 == 0 { (i - 2, i) } else { (i - 1, i) }));
            "comb"
        }
        5 => {
            let k = ctx.range(2, 3);
            for i in 1..n {
                e.extend((0..k).map(|_| (i - 1, i)));
            }
            "parallel links"
        }
        6 => {
            for i in 1..n {
                for _ in 0..r.next() % 4 {
                    e.push((i - 1 - (r.next() as usize) % i.min(25), i));
                }
            }
            "random"
        }
        _ => {
            // Many chains next to each other.
            let w = ctx.range(2, 40);
            e.extend((w..n).map(|i| (i - w, i)));
            "chains"
        }
    };
    Shape { name, n, edges: e }
}

/// The shape as a real graph.
struct Built<G> {
    g: G,
    s: Shape,
    /// Node of each position, and back.
    at: Vec<NodeIndex>,
    pos: Vec<usize>,
    succ: Vec<Vec<usize>>,
    pred: Vec<Vec<usize>>,
    /// All links of a node and direction share one port.
    shared: bool,
    work: u64,
}
fn order(ctx: &mut Ctx, r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match ctx.draw(3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..n).rev() {
                v.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
        }
    }
    v
}
impl<G: Gr> Built<G> {
    fn new(ctx: &mut Ctx) -> Self {
        let mut r = Rng::new(ctx.draw(1 << 30) as u64);
        let s = shape(ctx, &mut r);
        let n = s.n;
        let (mut succ, mut pred) = (vec![vec![]; n], vec![vec![]; n]);
        for &(a, b) in &s.edges {
            succ[a].push(b);
            pred[b].push(a);
        }
        let shared = G::MULTI && ctx.draw(2) == 0;
        let mut g = G::empty();
        let mut at = vec![NodeIndex::new(0); n];
        let mut pos = vec![0; n];
        let nodes = order(ctx, &mut r, n);
        for &i in &nodes {
            // One free port in each direction.
            let count = |v: &Vec<usize>| if shared { 2 } else { v.len() + 1 };
            at[i] = g.add_node(count(&pred[i]), count(&succ[i]));
            let k: usize = at[i].index();
            check!(k < n, "add_node", "node {:?} in a new graph of {n}", at[i]);
            pos[at[i].index()] = i;
        }
        let mut used = vec![(0, 0); n];
        let links = order(ctx, &mut r, s.edges.len());
        for k in links {
            let (a, b) = s.edges[k];
            let (x, y) = if shared { (0, 0) } else { (used[a].0, used[b].1) };
            used[a].0 += 1;
            used[b].1 += 1;
            check!(g.link_nodes(at[a], x, at[b], y).is_ok(), "link", "link_nodes({a}, {x}, {b}, {y})");
        }
        let work = (0..n).map(|i| ((2 + succ[i].len() + pred[i].len()) as u64).pow(2)).sum();
        ctx.op(s.name);
        ctx.state(fingerprint(&(s.name, n, shared)));
        ctx.log(|| format!("{}: {} of {n} nodes and {} links, ports shared: {shared}", G::NAME, s.name, s.edges.len()));
        Built { g, s, at, pos, succ, pred, shared, work }
    }
    fn next(&self, d: usize) -> &Vec<Vec<usize>> {
        if d == OUT {
            &self.succ
        } else {
            &self.pred
        }
    }
    fn ends(&self, d: usize) -> Vec<NodeIndex> {
        (0..self.s.n).filter(|i| self.next(1 - d)[*i].is_empty()).map(|i| self.at[i]).collect()
    }
    /// Bounds the calls that the body makes through the seam.
    fn counted<T>(&self, ctx: &mut Ctx, what: &str, factor: u64, f: impl FnOnce() -> T) -> T {
        let before = seam::calls();
        let r = f();
        let used = seam::calls() - before;
        let bound = factor * self.work + 200;
        ctx.log(|| format!("{what}: {used} calls, {:.2} of the bound", used as f64 / bound as f64));
        check!(used <= bound, "work", "{what} on {} of {} nodes and {} links made {used} calls, more than {bound}", self.s.name, self.s.n, self.s.edges.len());
        r
    }
    fn check_order(&self, v: &[NodeIndex], d: usize, who: &str) {
        check_eq!(v.len(), self.s.n, "count", "{who}: number of nodes returned");
        let mut when = vec![usize::MAX; self.s.n];
        for (t, x) in v.iter().enumerate() {
            let i = self.pos[x.index()];
            check!(when[i] == usize::MAX, "repeated node", "{who}: node {x:?} twice");
            when[i] = t;
        }
        for &(a, b) in &self.s.edges {
            check!((when[a] < when[b]) == (d == OUT), "order", "{who}: wrong order of linked nodes");
        }
    }
    fn reach(&self, from: &[usize], d: usize, within: Option<&[bool]>) -> Vec<bool> {
        let mut seen = vec![false; self.s.n];
        let mut stack: Vec<usize> = from.to_vec();
        while let Some(i) = stack.pop() {
            if !seen[i] && within.is_none_or(|w| w[i]) {
                seen[i] = true;
                stack.extend(&self.next(d)[i]);
            }
        }
        seen
    }
    /// A set of positions.
    fn part(&self, ctx: &mut Ctx) -> Vec<usize> {
        let n = self.s.n;
        match ctx.draw(4) {
            0 => {
                let i = ctx.draw(n);
                let k = ctx.range(1, n);
                (i..(i + k).min(n)).collect()
            }
            1 => {
                // A path.
                let (mut i, k) = (ctx.draw(n), ctx.range(1, n));
                let mut v = vec![i];
                while v.len() < k && !self.succ[i].is_empty() {
                    i = self.succ[i][0];
                    v.push(i);
                }
                v
            }
            2 => {
                let mut r = Rng::new(ctx.draw(1 << 20) as u64);
                let m = 2 + r.next() % 20;
                let v: Vec<usize> = (0..n).filter(|_| r.next() % m != 0).collect();
                if v.is_empty() {
                    vec![0]
                } else {
                    v
                }
            }
            _ => (0..n).collect(),
        }
    }
    fn convex(&self, part: &[usize]) -> bool {
        let mut inside = vec![false; self.s.n];
        part.iter().for_each(|i| inside[*i] = true);
        let out: Vec<usize> = part.iter().flat_map(|i| &self.succ[*i]).copied().filter(|j| !inside[*j]).collect();
        let seen = self.reach(&out, OUT, None);
        !part.iter().any(|i| seen[*i])
    }
    fn ids(&self, part: &[usize]) -> Vec<NodeIndex> {
        part.iter().map(|i| self.at[*i]).collect()
    }
}
fn yes<'a>() -> (impl FnMut(NodeIndex) -> bool + 'a, impl FnMut(NodeIndex, PortIndex) -> bool + 'a) {
    let nf = |_| {
        tick("node filter");
        true
    };
    let pf = |_, _| {
        tick("port filter");
        true
    };
    (nf, pf)
}

trait Sized2: Gr {
    fn own(ctx: &mut Ctx, b: &Built<Self>);
    fn pet(ctx: &mut Ctx, b: &Built<Self>);
}
macro_rules! pet {
    ($ctx:ident, $b:ident, $g:expr) => {{
        let g = $g;
        $ctx.op("petgraph");
        let root = $b.at[0];
        let seen = $b.reach(&[0], OUT, None).iter().filter(|x| **x).count();
        let mut k = [0; 3];
        let mut it = Dfs::new(g, root);
        while it.next(g).is_some() {
            k[0] += 1;
        }
        let mut it = DfsPostOrder::new(g, root);
        while it.next(g).is_some() {
            k[1] += 1;
        }
        let mut it = Bfs::new(g, root);
        while it.next(g).is_some() {
            k[2] += 1;
        }
        check_eq!(k, [seen; 3], "petgraph", "numbers of nodes found by petgraph's traversals");
        let mut v = vec![];
        let mut it = Topo::new(g);
        while let Some(x) = it.next(g) {
            v.push(x);
        }
        $b.check_order(&v, OUT, "petgraph's Topo");
        match ::petgraph::algo::toposort(g, None) {
            Ok(v) => $b.check_order(&v, OUT, "petgraph's toposort"),
            Err(_) => fail!("petgraph", "petgraph's toposort found a cycle"),
        }
        check_eq!(g.node_identifiers().count(), $b.s.n, "petgraph", "node identifiers");
    }};
}
impl Sized2 for PortGraph {
    fn own(ctx: &mut Ctx, b: &Built<Self>) {
        let d = 1 - ctx.draw(2);
        let (nf, pf) = yes();
        if ctx.draw(2) == 0 {
            ctx.op("postorder");
            let src = if ctx.draw(2) == 0 { b.ends(d) } else { b.at.clone() };
            let v: Vec<NodeIndex> = b.counted(ctx, "postorder", 3, || postorder_filtered(&b.g, src, dir(d), nf, pf).collect());
            // After the nodes that it links to.
            b.check_order(&v, 1 - d, "postorder");
            return;
        }
        ctx.op("dominators");
        let k = ctx.draw(b.s.n);
        let entry = if ctx.draw(2) == 0 { if d == OUT { 0 } else { b.s.n - 1 } } else { k };
        let tree: DominatorTree = b.counted(ctx, "dominators", 4, || dominators_filtered(&b.g, b.at[entry], dir(d), nf, pf));
        let seen = b.reach(&[entry], d, None);
        let mut idom = vec![usize::MAX; b.s.n];
        let mut depth = vec![0; b.s.n];
        let all: Vec<usize> = if d == OUT { (0..b.s.n).collect() } else { (0..b.s.n).rev().collect() };
        for i in all {
            let want = if i == entry || !seen[i] {
                None
            } else {
                let mut best = usize::MAX;
                for &j in b.next(1 - d)[i].iter().filter(|j| seen[**j]) {
                    if best == usize::MAX {
                        best = j;
                        continue;
                    }
                    let mut j = j;
                    while j != best {
                        if depth[j] >= depth[best] {
                            j = idom[j];
                        } else {
                            best = idom[best];
                        }
                    }
                }
                idom[i] = best;
                depth[i] = depth[best] + 1;
                Some(b.at[best])
            };
            check_eq!(tree.immediate_dominator(b.at[i]), want, "dominator", "immediate dominator of position {i} from {entry} in direction {d}");
        }
    }
    fn pet(ctx: &mut Ctx, b: &Built<Self>) {
        pet!(ctx, b, &b.g)
    }
}
impl Sized2 for MultiPortGraph {
    fn own(ctx: &mut Ctx, b: &Built<Self>) {
        ctx.op("copy_in_parent");
        let mut g = b.g.clone();
        let v = order(ctx, &mut Rng::new(1), b.s.n);
        let map = Subgraph::with_nodes(&mut g, v.iter().map(|i| b.at[*i])).copy_in_parent();
        let map = map.unwrap_or_else(|e| fail!("copy", "copy_in_parent: {e:?}"));
        check_eq!((g.node_count(), g.link_count(), map.len()), (2 * b.s.n, 2 * b.s.edges.len(), b.s.n), "copy", "counts after copying the graph");
        for i in 0..b.s.n {
            let mut got: Vec<usize> = g.output_neighbours(map[&b.at[i]]).filter_map(|y| (0..b.succ[i].len()).find(|k| map[&b.at[b.succ[i][*k]]] == y)).map(|k| b.succ[i][k]).collect();
            got.sort();
            let mut want = b.succ[i].clone();
            want.sort();
            check_eq!(got, want, "copy", "neighbours of the copy of position {i}");
        }
    }
    fn pet(ctx: &mut Ctx, b: &Built<Self>) {
        pet!(ctx, b, &b.g)
    }
}

fn graph<G: Sized2>(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(2, 7);
    let b = Built::<G>::new(ctx);
    while ctx.next_step() {
        match ctx.draw(9) {
            0 => {
                ctx.op("toposort");
                let base = Erased::<G::E>::new(&b.g, None);
                match ctx.draw(3) {
                    0 => sort(ctx, &b, base),
                    1 => sort(ctx, &b, &b.g),
                    _ => {
                        let f = filtered(base, false, false, &Sets::default());
                        sort(ctx, &b, &f)
                    }
                }
            }
            1 => G::own(ctx, &b),
            2 => static_checkers(ctx, &b),
            3 | 4 => dynamic(ctx, &b),
            5 => boundaries(ctx, &b),
            6 => G::pet(ctx, &b),
            7 => storage(ctx, &b),
            _ => removal(ctx, &b),
        }
    }
}
fn sort<G: Gr, V: LinkView + Clone>(ctx: &mut Ctx, b: &Built<G>, v: V) {
    let d = 1 - ctx.draw(2);
    let src = b.ends(d);
    let map = ctx.draw(3);
    let filters = ctx.draw(2) == 1;
    let got: Vec<NodeIndex> = b.counted(ctx, "toposort", 16, || {
        macro_rules! run {
            ($m:ty) => {
                if filters {
                    let (nf, pf) = yes();
                    toposort_filtered::<_, $m>(v, src, dir(d), nf, pf).collect()
                } else {
                    toposort::<_, $m>(v, src, dir(d)).collect()
                }
            };
        }
        match map {
            0 => run!(BitVec),
            1 => run!(HashSet<PortIndex>),
            _ => run!(UnmanagedDenseMap<PortIndex, bool>),
        }
    });
    b.check_order(&got, d, "toposort");
}
fn static_checkers<G: Gr>(ctx: &mut Ctx, b: &Built<G>) {
    let base = Erased::<G::E>::new(&b.g, None);
    let line = ctx.draw(2) == 0;
    // Each node of a star is on a line of its own, and all of them pass the hub.
    let line = line && b.s.name != "star";
    macro_rules! ask {
        ($c:expr, $name:expr) => {{
            ctx.op($name);
            let c = b.counted(ctx, $name, 12, || $c);
            for _ in 0..2 {
                let mut part = b.part(ctx);
                let want = b.convex(&part);
                if ctx.draw(2) == 1 {
                    part.reverse();
                }
                let got = b.counted(ctx, "is_node_convex", 2, || c.is_node_convex(b.ids(&part)));
                check_eq!(got, want, "convex", "{}: {} nodes of {}", $name, part.len(), b.s.name);
            }
        }};
    }
    if line {
        ask!(LineConvexChecker::new(base), "LineConvexChecker")
    } else {
        ask!(TopoConvexChecker::new(base), "TopoConvexChecker")
    }
}
fn dynamic<G: Gr>(ctx: &mut Ctx, b: &Built<G>) {
    ctx.op("DynamicTopoConvexChecker");
    let mut c = DynamicTopoConvexChecker::new(b.g.clone());
    let (n, mut links) = (b.s.n, b.s.edges.len());
    let free = |i: usize, d: usize| if b.shared { 1 } else { b.next(d)[i].len() };
    let kind = ctx.draw(4);
    // New nodes before and after what is there.
    for _ in 0..ctx.range(1, 4) {
        let x = c.add_node(1, 1);
        let i = ctx.draw(n);
        let front = ctx.draw(2) == 0;
        let i = if kind == 0 { i } else if front { 0 } else { n - 1 };
        let (from, to, ox, oy) = if front { (x, b.at[i], 0, free(i, IN)) } else { (b.at[i], x, free(i, OUT), 0) };
        let port = if front { c.input(b.at[i], oy) } else { c.output(b.at[i], ox) };
        if port.is_none_or(|q| c.port_link(q).is_some()) {
            continue;
        }
        ctx.log(|| format!("link from a new node to position {i}: {front}"));
        let r = c.link_nodes(from, ox, to, oy);
        check!(r.is_ok(), "refused", "a link between position {i} and a new node is refused: {}", r.is_err());
        links += 1;
    }
    // A link that keeps the graph acyclic, and one that does not.
    let (i, j) = (ctx.draw(n), ctx.draw(n));
    let (i, j) = (i.min(j), i.max(j));
    let mut linked = false;
    if i != j && ctx.draw(2) == 1 {
        let forward = ctx.draw(3) > 0;
        let (a, z) = if forward { (i, j) } else { (j, i) };
        let cycle = !forward && b.reach(&[i], OUT, None)[j];
        let (q, r) = (c.output(b.at[a], free(a, OUT)), c.input(b.at[z], free(z, IN)));
        if let (Some(q), Some(r)) = (q, r) {
            if c.port_link(q).is_none() && c.port_link(r).is_none() {
                ctx.log(|| format!("link position {a} to position {z}, which closes a cycle: {cycle}"));
                let mut ok = false;
                let panicked = panics(|| ok = c.link_ports(q, r).is_ok());
                check_eq!(ok && !panicked, !cycle, "link", "position {a} to position {z} on {}", b.s.name);
                links += ok as usize;
                linked = ok;
            }
        }
    }
    check_eq!(c.link_count(), links, "link_count", "links of the dynamic checker");
    // The new nodes are not between others.
    if !linked {
        let part = b.part(ctx);
        check_eq!(c.is_convex(b.ids(&part), [], []), b.convex(&part), "convex", "{} nodes of {}", part.len(), b.s.name);
    }
    for k in order(ctx, &mut Rng::new(3), n).into_iter().take(20) {
        c.remove_node(b.at[k]);
        check!(!c.contains_node(b.at[k]), "remove_node", "a removed node is still there");
    }
}
fn boundaries<G: Gr>(ctx: &mut Ctx, b: &Built<G>) {
    ctx.op("boundary");
    let part = b.part(ctx);
    let base = Erased::<G::E>::new(&b.g, None);
    let sub = b.counted(ctx, "with_nodes", 8, || Subgraph::with_nodes(base, b.ids(&part)));
    let mut inside = vec![false; b.s.n];
    part.iter().for_each(|i| inside[*i] = true);
    let inner = b.s.edges.iter().filter(|(x, y)| inside[*x] && inside[*y]).count();
    check_eq!((sub.node_count(), sub.link_count()), (part.len(), inner), "subgraph", "counts of a subgraph");
    let bd = sub.port_boundary();
    let crossing = |d: usize| part.iter().flat_map(|i| b.next(d)[*i].iter().map(move |j| (*i, *j))).filter(|(_, j)| !inside[*j]).count();
    if b.shared {
        // A shared port may both cross the boundary and not.
        return;
    }
    check_eq!(sub.is_convex(), part.len() <= 1 || b.convex(&part), "convex", "Subgraph::is_convex of {} nodes of {}", part.len(), b.s.name);
    check_eq!((bd.input_indices().len(), bd.output_indices().len()), (crossing(IN), crossing(OUT)), "boundary", "sizes of the boundary");
    let (ins, outs) = (bd.input_indices(), bd.output_indices());
    if ins.len() > 40 || outs.len() > 400 {
        return;
    }
    let ord = b.counted(ctx, "port_ordering", 16, || bd.port_ordering(&sub));
    let node = |q: &PortIndex| b.pos[b.g.port_node(*q).unwrap().index()];
    for (k, q) in ins.iter().enumerate() {
        let seen = b.reach(&[node(q)], OUT, Some(&inside));
        let want = outs.iter().filter(|o| seen[node(o)]).count();
        let got = ord.reachable_ports(bd.find_port(*q, Direction::Incoming));
        check_eq!(got.len(), want, "port_ordering", "outputs reachable from input {k} of {} nodes of {}", part.len(), b.s.name);
    }
}
fn storage<G: Gr>(ctx: &mut Ctx, b: &Built<G>) {
    ctx.op("checkpoint");
    let c = *ctx.pick(&CODECS).unwrap();
    let g: G = decode(c, &encode(c, &b.g));
    check!(g == b.g, "checkpoint", "a restored checkpoint differs");
    check!(format!("{g:?}").len() > b.s.n, "debug", "the debug output is short");
    let mut h = G::empty();
    let k = ctx.draw(5);
    (0..k).for_each(|_| {
        h.add_node(1, 2);
    });
    let map = h.insert_graph(&b.g).unwrap_or_else(|e| fail!("insert_graph", "{e:?}"));
    check_eq!((map.len(), h.node_count(), h.link_count()), (b.s.n, b.s.n + k, b.s.edges.len()), "insert_graph", "counts after insert_graph");
    if b.s.n <= 600 {
        check_eq!(b.g.dot_string().matches(" -> ").count(), b.s.edges.len(), "dot", "links in the diagram");
        check_eq!(b.g.mermaid_string().matches("-->").count(), b.s.edges.len(), "mermaid", "links in the diagram");
    }
}
fn removal<G: Gr>(ctx: &mut Ctx, b: &Built<G>) {
    ctx.op("removal");
    let mut g = b.g.clone();
    let mut r = Rng::new(ctx.draw(1 << 20) as u64);
    let v = order(ctx, &mut r, b.s.n);
    let keep = ctx.draw(b.s.n);
    let mut gone = vec![false; b.s.n];
    for &i in &v[keep..] {
        g.remove_node(b.at[i]);
        gone[i] = true;
    }
    let left = b.s.edges.iter().filter(|(x, y)| !gone[*x] && !gone[*y]).count();
    check_eq!((g.node_count(), g.link_count()), (keep, left), "removal", "counts after removing nodes");
    let mut moved = 0;
    g.compact_nodes(|_, _| moved += 1);
    g.compact_ports(|_, _| {});
    g.shrink_to_fit();
    check_eq!((g.node_count(), g.link_count()), (keep, left), "compaction", "counts after compaction ({moved} nodes moved)");
    // Widening and narrowing nodes.
    let nodes: Vec<NodeIndex> = g.nodes_iter().take(30).collect();
    for x in nodes {
        g.set_num_ports(x, 300, 300, |_, _| {});
        g.set_num_ports(x, 0, 0, |_, _| {});
    }
    let total: usize = g.nodes_iter().map(|x| g.output_links(x).count()).sum();
    check_eq!(g.link_count(), total, "resizing", "links after resizing nodes");
    g.clear();
    check!(g.is_empty() && g.link_count() == 0, "clear", "clear leaves something");
}

/// A spine of the given length, where some nodes have a leaf next to the spine.
fn deep(ctx: &mut Ctx, huge: bool) {
    let n = if huge { ctx.range(80_000, 120_000) } else { ctx.range(1500, 5000) };
    ctx.op(if huge { "huge hierarchy" } else { "deep hierarchy" });
    ctx.max_steps = ctx.range(2, 5);
    let mut r = Rng::new(ctx.draw(1 << 30) as u64);
    let every = ctx.range(1, 4);
    let mut g = PortGraph::<u32, u32, u16>::new();
    // Position on the spine, and whether it is a leaf.
    let mut what: Vec<(usize, bool)> = vec![];
    for i in 0..n {
        what.push((i, false));
        if i % every == 0 {
            what.push((i, true));
        }
    }
    let total = what.len();
    let perm = order(ctx, &mut r, total);
    let mut spine = vec![NodeIndex::new(0); n];
    let mut leaf = vec![None; n];
    let mut of = vec![(0, false); total];
    for k in perm {
        let x = g.add_node(0, 0);
        of[x.index()] = what[k];
        match what[k] {
            (i, false) => spine[i] = x,
            (i, true) => leaf[i] = Some(x),
        }
    }
    ctx.state(fingerprint(&(n, every)));
    let mut h = Hierarchy::new();
    // Trees are attached from the bottom.
    for i in (0..n).rev() {
        let front = i % 2 == 0;
        if let Some(l) = leaf[i] {
            check!(h.push_child(l, spine[i]).is_ok(), "attach", "a leaf");
        }
        if i + 1 < n {
            let res = if front { h.push_front_child(spine[i + 1], spine[i]) } else { h.push_child(spine[i + 1], spine[i]) };
            check!(res.is_ok(), "attach", "position {} below {i}", i + 1);
        }
    }
    let id = |k: usize, of: &Vec<(usize, bool)>| of[k];
    while ctx.next_step() {
        match ctx.draw(6) {
            0 => {
                ctx.op("lca");
                let t = lca(&g, &h);
                for _ in 0..(if huge { 100_000 } else { 3000 }) {
                    let (a, b) = ((r.next() as usize) % total, (r.next() as usize) % total);
                    let (x, y) = (id(a, &of), id(b, &of));
                    let want = if a == b { NodeIndex::new(a) } else { spine[x.0.min(y.0)] };
                    check_eq!(t.lca(NodeIndex::new(a), NodeIndex::new(b)), Some(want), "lca", "lca of {x:?} and {y:?} on a spine of {n}");
                    check_eq!(t.root(NodeIndex::new(a)), spine[0], "lca", "root of {x:?}");
                    check_eq!(t.is_ancestor(NodeIndex::new(a), NodeIndex::new(b)), a == b || (!x.1 && x.0 <= y.0), "lca", "is_ancestor of {x:?} and {y:?}");
                }
            }
            1 | 2 => {
                ctx.op("Region");
                let k = ctx.draw(n);
                let v = Region::new(&g, &h, spine[k]);
                let ask: Vec<usize> = match ctx.draw(4) {
                    // From the top, from the bottom, and in any order.
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    _ => order(ctx, &mut r, n),
                };
                for i in ask {
                    check_eq!(v.contains_node(spine[i]), i >= k, "region", "whether the region below {k} contains position {i}");
                    if let Some(l) = leaf[i] {
                        check_eq!(v.contains_node(l), i >= k, "region", "whether the region below {k} contains the leaf of {i}");
                    }
                }
                let want = (k..n).count() + (k..n).filter(|i| leaf[*i].is_some()).count();
                check_eq!(v.node_count(), want, "region", "size of the region");
                check_eq!(v.nodes_iter().count(), want, "region", "number of nodes of the region");
                let f = FlatRegion::new_without_root(&g, &h, spine[k]);
                check_eq!(f.node_count(), leaf[k].is_some() as usize + (k + 1 < n) as usize, "region", "size of the flat region");
            }
            3 => {
                ctx.op("descendants");
                let mut depth = vec![usize::MAX; total];
                let mut count = 0;
                for x in h.descendants(spine[0]) {
                    let p = h.parent(x);
                    depth[x.index()] = match p {
                        None => 0,
                        Some(p) => depth[p.index()].wrapping_add(1),
                    };
                    let w = of[x.index()];
                    check_eq!(depth[x.index()], w.0 + w.1 as usize, "descendants", "depth of {w:?}");
                    count += 1;
                }
                check_eq!(count, total, "descendants", "number of descendants of the root");
            }
            4 => {
                ctx.op("moves");
                // Cut in the middle, and put it back.
                let k = ctx.range(1, n - 1);
                check_eq!(h.detach(spine[k]), Some(spine[k - 1]), "detach", "position {k}");
                check!(h.push_child(spine[0], spine[n - 1]).is_ok(), "attach", "the top below the bottom");
                check!(h.push_child(spine[k], spine[k - 1]).is_err(), "cycle", "a cycle of {n} nodes is accepted");
                check!(h.insert_after(spine[k], spine[k - 1]).is_err() || k == 1 && h.parent(spine[0]).is_none(), "cycle", "a cycle of {n} nodes is accepted");
                check_eq!(h.detach(spine[0]), Some(spine[n - 1]), "detach", "the top");
                check!(h.push_child(spine[k], spine[k - 1]).is_ok(), "attach", "position {k} back");
                let (a, b) = (ctx.draw(n), ctx.draw(n));
                h.swap_nodes(spine[a], spine[b]);
                spine.swap(a, b);
                of[spine[a].index()] = (a, false);
                of[spine[b].index()] = (b, false);
            }
            _ => {
                ctx.op("hierarchy checkpoint");
                let c = *ctx.pick(&CODECS).unwrap();
                let h2: Hierarchy = decode(c, &encode(c, &h));
                check!(h2 == h, "checkpoint", "a restored hierarchy differs");
                let mut h2 = h2;
                for k in order(ctx, &mut r, total) {
                    h2.remove(NodeIndex::new(k));
                }
                check!((0..total).all(|k| h2.is_root(NodeIndex::new(k)) && !h2.has_children(NodeIndex::new(k))), "remove", "a relation is left after removing all nodes");
                if n <= 2000 {
                    let k = ctx.range(n.saturating_sub(300), n - 1);
                    let v = Region::new(&g, &h, spine[k]);
                    let text = v.mermaid_format().with_hierarchy(&h).finish();
                    let want = (k..n).filter(|i| *i + 1 < n || leaf[*i].is_some()).count();
                    check_eq!(text.matches("subgraph ").count(), want, "mermaid", "subgraphs of the diagram");
                    let text = v.dot_format().with_hierarchy(&h).finish();
                    let want = (k..n).map(|i| leaf[i].is_some() as usize + (i + 1 < n) as usize).sum::<usize>();
                    check_eq!(text.matches("dashed").count(), want, "dot", "relations of the diagram");
                }
            }
        }
    }
}
