//! The reference model: a plain set of nodes, ordered ports and links, and the
//! comparison of a view against it.

use crate::gr::*;
use crate::{check, check_eq, fail};
use ::portgraph::view::*;
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};

/// What a view must show.
#[derive(Clone, Default, Debug, PartialEq, Hash)]
pub struct Expected {
    /// The ordered input and output ports of each node.
    pub nodes: BTreeMap<N, [Vec<P>; 2]>,
    /// Node, direction and offset of each port.
    pub ports: BTreeMap<P, (N, usize, usize)>,
    /// Symmetric map of linked endpoints.
    pub links: BTreeMap<Ep, Ep>,
}
impl Expected {
    pub fn node_of(&self, x: P) -> N {
        self.ports[&x].0
    }
    pub fn dir_of(&self, x: P) -> usize {
        self.ports[&x].1
    }
    pub fn port_links(&self, x: P) -> Vec<(Ep, Ep)> {
        self.links.range((x, 0)..(x + 1, 0)).map(|(a, b)| (*a, *b)).collect()
    }
    pub fn node_links(&self, x: N, d: usize) -> Vec<(Ep, Ep)> {
        self.nodes[&x][d].iter().flat_map(|&q| self.port_links(q)).collect()
    }
    /// Directed links as (output endpoint, input endpoint).
    pub fn edges(&self) -> Vec<(Ep, Ep)> {
        self.links.iter().filter(|(a, _)| self.dir_of(a.0) == OUT).map(|(a, b)| (*a, *b)).collect()
    }
    /// Directed links as node pairs, with repetitions.
    pub fn node_edges(&self) -> Vec<(N, N)> {
        self.edges().iter().map(|(a, b)| (self.node_of(a.0), self.node_of(b.0))).collect()
    }
    /// Distinct successors of every node.
    pub fn succ(&self) -> BTreeMap<N, BTreeSet<N>> {
        let mut m: BTreeMap<N, BTreeSet<N>> = self.nodes.keys().map(|k| (*k, BTreeSet::new())).collect();
        for (a, b) in self.node_edges() {
            m.get_mut(&a).unwrap().insert(b);
        }
        m
    }
    /// The restriction to some nodes and links.
    pub fn restrict(&self, node: impl Fn(N) -> bool, link: impl Fn(Ep, Ep) -> bool) -> Expected {
        let nodes: BTreeMap<_, _> = self.nodes.iter().filter(|(k, _)| node(**k)).map(|(k, v)| (*k, v.clone())).collect();
        let ports: BTreeMap<_, _> = self.ports.iter().filter(|(_, v)| nodes.contains_key(&v.0)).map(|(k, v)| (*k, *v)).collect();
        let links = self
            .links
            .iter()
            .filter(|(a, b)| ports.contains_key(&a.0) && ports.contains_key(&b.0) && link(**a, **b) && link(**b, **a))
            .map(|(a, b)| (*a, *b))
            .collect();
        Expected { nodes, ports, links }
    }
    /// Whether the links form a cycle of nodes.
    pub fn reachable(&self, from: &[N]) -> BTreeSet<N> {
        let succ = self.succ();
        let mut seen: BTreeSet<N> = BTreeSet::new();
        let mut stack: Vec<N> = from.iter().copied().filter(|x| self.nodes.contains_key(x)).collect();
        while let Some(x) = stack.pop() {
            if seen.insert(x) {
                stack.extend(succ[&x].iter().copied());
            }
        }
        seen
    }
    pub fn bound_nodes(&self) -> N {
        self.nodes.keys().next_back().map_or(0, |x| x + 1)
    }
    pub fn bound_ports(&self) -> P {
        self.ports.keys().next_back().map_or(0, |x| x + 1)
    }
}

pub fn sorted<T: Ord>(it: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = it.into_iter().collect();
    v.sort();
    v
}
pub fn ix(it: impl Iterator<Item = NodeIndex>) -> Vec<N> {
    it.map(|x| x.index()).collect()
}
pub fn px(it: impl Iterator<Item = PortIndex>) -> Vec<P> {
    it.map(|x| x.index()).collect()
}
pub fn eps<E: EpT>(it: impl Iterator<Item = (E, E)>) -> Vec<(Ep, Ep)> {
    it.map(|(a, b)| (a.ep(), b.ep())).collect()
}

/// Compares the answers about one node of a view.
pub fn check_node<V>(v: &V, e: &Expected, x: N, who: &str)
where
    V: LinkView,
    V::LinkEndpoint: EpT,
{
    let nx = n(x);
    let ports = &e.nodes[&x];
    check!(v.contains_node(nx), "contains_node", "{who}: node {x} is missing");
    for d in [IN, OUT] {
        check_eq!(px(v.ports(nx, dir(d))), ports[d], "ports", "{who}: ports({x}, {d})");
        check_eq!(v.num_ports(nx, dir(d)), ports[d].len(), "num_ports", "{who}: num_ports({x}, {d})");
        let offs: Vec<_> = v.port_offsets(nx, dir(d)).map(|o| (o.direction() as usize, o.index())).collect();
        check_eq!(offs, (0..ports[d].len()).map(|k| (d, k)).collect::<Vec<_>>(), "port_offsets", "{who}: port_offsets({x}, {d})");
        let links = sorted(eps(v.links(nx, dir(d))));
        let want = sorted(e.node_links(x, d));
        check_eq!(links, want, "links", "{who}: links({x}, {d})");
        let nb = sorted(ix(v.neighbours(nx, dir(d))));
        let wn = sorted(want.iter().map(|(_, b)| e.node_of(b.0)));
        check_eq!(nb, wn, "neighbours", "{who}: neighbours({x}, {d})");
    }
    let offs: Vec<_> = v.input_offsets(nx).chain(v.output_offsets(nx)).map(|o| (o.direction() as usize, o.index())).collect();
    let want: Vec<_> = [IN, OUT].iter().flat_map(|&d| (0..ports[d].len()).map(move |k| (d, k))).collect();
    check_eq!(offs, want, "input/output_offsets", "{who}: input_offsets and output_offsets({x})");
    for d in [IN, OUT] {
        let (links, nb) = if d == IN {
            (sorted(eps(v.input_links(nx))), sorted(ix(v.input_neighbours(nx))))
        } else {
            (sorted(eps(v.output_links(nx))), sorted(ix(v.output_neighbours(nx))))
        };
        let want = sorted(e.node_links(x, d));
        let wn = sorted(want.iter().map(|(_, b)| e.node_of(b.0)));
        check_eq!(links, want, "input/output_links", "{who}: links of {x} in direction {d}");
        check_eq!(nb, wn, "input/output_neighbours", "{who}: neighbours of {x} in direction {d}");
    }
    check_eq!(px(v.inputs(nx)), ports[IN], "inputs", "{who}: inputs({x})");
    check_eq!(px(v.outputs(nx)), ports[OUT], "outputs", "{who}: outputs({x})");
    check_eq!(v.num_inputs(nx), ports[IN].len(), "num_inputs", "{who}: num_inputs({x})");
    check_eq!(v.num_outputs(nx), ports[OUT].len(), "num_outputs", "{who}: num_outputs({x})");
    let all: Vec<P> = ports[IN].iter().chain(&ports[OUT]).copied().collect();
    check_eq!(px(v.all_ports(nx)), all, "all_ports", "{who}: all_ports({x})");
    let offs: Vec<_> = v.all_port_offsets(nx).map(|o| (o.direction() as usize, o.index())).collect();
    let want: Vec<_> = [IN, OUT].iter().flat_map(|&d| (0..ports[d].len()).map(move |k| (d, k))).collect();
    check_eq!(offs, want, "all_port_offsets", "{who}: all_port_offsets({x})");
    for d in [IN, OUT] {
        let len = ports[d].len();
        let ks: Vec<usize> = if len <= 40 { (0..len + 2).collect::<Vec<_>>() } else { vec![0, 1, len / 2, len - 1, len, len + 1] }
            .into_iter()
            .filter(|k| *k <= PortOffset::<V::PortOffsetBase>::max_offset())
            .collect();
        for k in ks {
            let want = ports[d].get(k).copied();
            let o = if d == IN { PortOffset::new_incoming(k) } else { PortOffset::new_outgoing(k) };
            check_eq!(v.port_index(nx, o).map(|q| q.index()), want, "port_index", "{who}: port_index({x}, {d}, {k})");
            let got = if d == IN { v.input(nx, k) } else { v.output(nx, k) };
            check_eq!(got.map(|q| q.index()), want, "input/output", "{who}: input/output({x}, {d}, {k})");
        }
    }
    // Self-loops are listed once, from the output to the input.
    let mut want: Vec<_> = e.node_links(x, OUT);
    want.extend(e.node_links(x, IN).into_iter().filter(|(_, b)| e.node_of(b.0) != x));
    let want = sorted(want);
    check_eq!(sorted(eps(v.all_links(nx))), want, "all_links", "{who}: all_links({x})");
    let wn = sorted(want.iter().map(|(_, b)| e.node_of(b.0)));
    check_eq!(sorted(ix(v.all_neighbours(nx))), wn, "all_neighbours", "{who}: all_neighbours({x})");
}

/// Compares the answers about one port of a view.
pub fn check_port<V>(v: &V, e: &Expected, q: P, who: &str)
where
    V: LinkView,
    V::LinkEndpoint: EpT,
{
    let (node, d, off) = e.ports[&q];
    let pq = p(q);
    check!(v.contains_port(pq), "contains_port", "{who}: port {q} is missing");
    check_eq!(v.port_node(pq).map(|x| x.index()), Some(node), "port_node", "{who}: port_node({q})");
    check_eq!(v.port_direction(pq).map(|x| x as usize), Some(d), "port_direction", "{who}: port_direction({q})");
    check_eq!(
        v.port_offset(pq).map(|x| (x.direction() as usize, x.index())),
        Some((d, off)),
        "port_offset",
        "{who}: port_offset({q})"
    );
    let want = sorted(e.port_links(q));
    check_eq!(sorted(eps(v.port_links(pq))), want, "port_links", "{who}: port_links({q})");
    match v.port_link(pq) {
        None => check!(want.is_empty(), "port_link", "{who}: port_link({q}) is none, expected one of {want:?}"),
        Some(l) => check!(want.iter().any(|(_, b)| *b == l.ep()), "port_link", "{who}: port_link({q}) is {l:?}, expected one of {want:?}"),
    }
}

/// Compares the connections between two nodes of a view.
pub fn check_pair<V>(v: &V, e: &Expected, a: N, b: N, who: &str)
where
    V: LinkView,
    V::LinkEndpoint: EpT,
{
    let want = sorted(e.node_links(a, OUT).into_iter().filter(|(_, t)| e.node_of(t.0) == b));
    check_eq!(sorted(eps(v.get_connections(n(a), n(b)))), want, "get_connections", "{who}: get_connections({a}, {b})");
    check_eq!(v.connected(n(a), n(b)), !want.is_empty(), "connected", "{who}: connected({a}, {b})");
    match v.get_connection(n(a), n(b)) {
        None => check!(want.is_empty(), "get_connection", "{who}: get_connection({a}, {b}) is none, expected one of {want:?}"),
        Some((s, t)) => check!(want.contains(&(s.ep(), t.ep())), "get_connection", "{who}: get_connection({a}, {b}) is {:?}", (s, t)),
    }
}

/// Compares the counts and listings of a whole view.
pub fn check_totals<V>(v: &V, e: &Expected, who: &str)
where
    V: LinkView,
    V::LinkEndpoint: EpT,
{
    check_eq!(v.node_count(), e.nodes.len(), "node_count", "{who}: node_count");
    check_eq!(v.port_count(), e.ports.len(), "port_count", "{who}: port_count");
    check_eq!(v.link_count(), e.links.len() / 2, "link_count", "{who}: link_count");
    check_eq!(v.is_empty(), e.nodes.is_empty(), "is_empty", "{who}: is_empty");
    let (cn, cp) = (v.node_capacity(), v.port_capacity());
    check!(cn >= e.nodes.len() && cp >= e.ports.len(), "capacity", "{who}: capacity for {cn} nodes and {cp} ports, which is less than there are");
    check_eq!(sorted(ix(v.nodes_iter())), e.nodes.keys().copied().collect::<Vec<_>>(), "nodes_iter", "{who}: nodes_iter");
    check_eq!(sorted(px(v.ports_iter())), e.ports.keys().copied().collect::<Vec<_>>(), "ports_iter", "{who}: ports_iter");
}

/// Compares a whole view, including node and port indices it must not contain.
pub fn check_view<V>(v: &V, e: &Expected, who: &str, absent_nodes: &[N], absent_ports: &[P])
where
    V: LinkView,
    V::LinkEndpoint: EpT,
{
    check_totals(v, e, who);
    for &x in e.nodes.keys() {
        check_node(v, e, x, who);
    }
    let step = (e.ports.len() / 400).max(1);
    for &q in e.ports.keys().step_by(step) {
        check_port(v, e, q, who);
    }
    let few: Vec<N> = e.nodes.keys().copied().take(9).collect();
    let mut pairs: BTreeSet<(N, N)> = e.node_edges().into_iter().take(60).collect();
    pairs.extend(few.iter().flat_map(|&a| few.iter().map(move |&b| (a, b))));
    for (a, b) in pairs {
        check_pair(v, e, a, b, who);
    }
    for &x in absent_nodes {
        if !e.nodes.contains_key(&x) {
            check!(!v.contains_node(n(x)), "contains_node", "{who}: contains_node({x}) but the node is not there");
        }
    }
    for &q in absent_ports {
        if !e.ports.contains_key(&q) {
            check!(!v.contains_port(p(q)), "contains_port", "{who}: contains_port({q}) but the port is not there");
        }
    }
}

/// Compares the subports of a view (multi-link queries).
pub fn check_subports<V>(v: &V, e: &Expected, who: &str)
where
    V: MultiView,
    V::LinkEndpoint: EpT,
{
    for (&x, ports) in &e.nodes {
        let mut all = vec![];
        for d in [IN, OUT] {
            let subs: Vec<Ep> = v.subports(n(x), dir(d)).map(|s| s.ep()).collect();
            let set: BTreeSet<Ep> = subs.iter().copied().collect();
            check_eq!(set.len(), subs.len(), "subports", "{who}: repeated subports of {x}: {subs:?}");
            let short: Vec<Ep> = if d == IN {
                v.subport_inputs(n(x)).map(|s| s.ep()).collect()
            } else {
                v.subport_outputs(n(x)).map(|s| s.ep()).collect()
            };
            check_eq!(short, subs, "subports", "{who}: subport_inputs/outputs({x})");
            let with: BTreeSet<P> = set.iter().map(|s| s.0).collect();
            check_eq!(with, ports[d].iter().copied().collect::<BTreeSet<_>>(), "subports", "{who}: ports with subports of {x}, {d}");
            for (s, _) in e.node_links(x, d) {
                check!(set.contains(&s), "subports", "{who}: linked subport {s:?} of {x} is not listed in {subs:?}");
            }
            for s in subs {
                let got = v.subport_link(V::LinkEndpoint::of(s)).map(|t| t.ep());
                check_eq!(got, e.links.get(&s).copied(), "subport_link", "{who}: subport_link({s:?})");
                all.push(s);
            }
        }
        let got: Vec<Ep> = v.all_subports(n(x)).map(|s| s.ep()).collect();
        check_eq!(sorted(got), sorted(all), "all_subports", "{who}: all_subports({x})");
    }
}

/// The reference model of a graph that undergoes operations.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub e: Expected,
    /// Identity of each live node, stable across index changes.
    pub nuid: BTreeMap<N, u64>,
    pub puid: BTreeMap<P, u64>,
    pub next_uid: u64,
}
impl Model {
    fn uid(&mut self) -> u64 {
        self.next_uid += 1;
        self.next_uid
    }
    pub fn add_node(&mut self, x: N, ins: Vec<P>, outs: Vec<P>) {
        let u = self.uid();
        self.nuid.insert(x, u);
        for (d, ps) in [(IN, &ins), (OUT, &outs)] {
            for (k, q) in ps.iter().enumerate() {
                let u = self.uid();
                self.puid.insert(*q, u);
                self.e.ports.insert(*q, (x, d, k));
            }
        }
        self.e.nodes.insert(x, [ins, outs]);
    }
    pub fn unlink(&mut self, a: Ep) -> Option<Ep> {
        let b = self.e.links.remove(&a)?;
        self.e.links.remove(&b);
        Some(b)
    }
    pub fn unlink_port(&mut self, q: P) {
        for (a, _) in self.e.port_links(q) {
            self.unlink(a);
        }
    }
    pub fn link(&mut self, a: Ep, b: Ep) {
        if self.e.links.insert(a, b).is_some() || self.e.links.insert(b, a).is_some() {
            fail!("link", "endpoint {a:?} or {b:?} handed out twice");
        }
    }
    pub fn remove_port(&mut self, q: P) {
        self.unlink_port(q);
        self.e.ports.remove(&q);
        self.puid.remove(&q);
    }
    pub fn remove_node(&mut self, x: N) {
        if let Some(ports) = self.e.nodes.remove(&x) {
            for q in ports.into_iter().flatten() {
                self.remove_port(q);
            }
            self.nuid.remove(&x);
        }
    }
    /// Renames ports simultaneously.
    pub fn rename_ports(&mut self, map: &BTreeMap<P, P>) {
        if map.iter().all(|(a, b)| a == b) {
            return;
        }
        let f = |q: P| map.get(&q).copied().unwrap_or(q);
        self.e.ports = std::mem::take(&mut self.e.ports).into_iter().map(|(q, v)| (f(q), v)).collect();
        self.puid = std::mem::take(&mut self.puid).into_iter().map(|(q, v)| (f(q), v)).collect();
        self.e.links = std::mem::take(&mut self.e.links).into_iter().map(|(a, b)| ((f(a.0), a.1), (f(b.0), b.1))).collect();
        for ports in self.e.nodes.values_mut() {
            for q in ports.iter_mut().flatten() {
                *q = f(*q);
            }
        }
    }
    /// Renames nodes simultaneously.
    pub fn rename_nodes(&mut self, map: &BTreeMap<N, N>) {
        if map.iter().all(|(a, b)| a == b) {
            return;
        }
        let f = |q: N| map.get(&q).copied().unwrap_or(q);
        self.e.nodes = std::mem::take(&mut self.e.nodes).into_iter().map(|(q, v)| (f(q), v)).collect();
        self.nuid = std::mem::take(&mut self.nuid).into_iter().map(|(q, v)| (f(q), v)).collect();
        for v in self.e.ports.values_mut() {
            v.0 = f(v.0);
        }
    }
    pub fn clear(&mut self) {
        self.e = Expected::default();
        self.nuid.clear();
        self.puid.clear();
    }
}
