//! One trait over the two graph types, and endpoints as plain numbers.

use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::view::*;
use ::portgraph::*;
use ::portgraph::index::Unsigned;
use std::collections::BTreeSet;
use crate::model::{check_subports, px, Expected};
use crate::{check, check_eq};

pub type N = usize;
pub type P = usize;
/// A link endpoint: port index and subport offset.
pub type Ep = (P, usize);

pub const IN: usize = 0;
pub const OUT: usize = 1;
pub fn dir(d: usize) -> Direction {
    if d == IN {
        Direction::Incoming
    } else {
        Direction::Outgoing
    }
}
pub fn n(i: N) -> NodeIndex {
    NodeIndex::new(i)
}
pub fn p(i: P) -> PortIndex {
    PortIndex::new(i)
}

pub trait EpT: Copy + Into<PortIndex> + std::fmt::Debug + PartialEq + Eq + 'static {
    fn ep(self) -> Ep;
    fn of(e: Ep) -> Self;
}
impl EpT for PortIndex {
    fn ep(self) -> Ep {
        (self.index(), 0)
    }
    fn of(e: Ep) -> Self {
        p(e.0)
    }
}
impl EpT for SubportIndex {
    fn ep(self) -> Ep {
        (self.port().index(), self.offset())
    }
    fn of(e: Ep) -> Self {
        if e.1 == 0 {
            SubportIndex::new_unique(p(e.0))
        } else {
            SubportIndex::new_multi(p(e.0), e.1)
        }
    }
}

/// The integers that can represent port offsets.
pub trait Off: Default + Unsigned + serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug + PartialEq + Send + Sync + 'static {
    const BITS: u32;
}
impl Off for u8 {
    const BITS: u32 = 8;
}
impl Off for u16 {
    const BITS: u32 = 16;
}
impl Off for u32 {
    const BITS: u32 = 32;
}

/// A graph with the default port offsets.
pub trait Gr: AnyGr<O = u16> {}
impl<G: AnyGr<O = u16>> Gr for G {}

pub trait AnyGr:
    LinkMut
    + PortMut
    + LinkView<LinkEndpoint = Self::E>
    + PortView<PortOffsetBase = Self::O>
    + Clone
    + PartialEq
    + Default
    + std::fmt::Debug
    + serde::Serialize
    + serde::de::DeserializeOwned
    + Send
    + Sync
    + 'static
{
    type E: EpT;
    type O: Off;
    const MULTI: bool;
    const NAME: &'static str;
    fn empty() -> Self;
    fn sized(nodes: usize, ports: usize) -> Self;
    fn g_subport_link(&self, s: Ep) -> Option<Ep>;
    fn g_subports(&self, node: N, d: usize) -> Vec<Ep>;
    fn g_all_subports(&self, node: N) -> Vec<Ep>;
    fn g_link_subports(&mut self, a: Ep, b: Ep) -> Result<(), LinkError<Self::O>>;
    fn g_unlink_subport(&mut self, s: Ep) -> Option<Ep>;
    /// Whether the raw node index is used internally (hidden copy nodes).
    fn hidden_nodes(&self) -> Vec<N>;
    /// Number of raw node slots the graph hands out or hides; a bound for
    /// `swap_nodes`.
    fn slots(&self) -> usize;
    /// Ports of hidden nodes.
    fn hidden_ports(&self) -> BTreeSet<P>;
    fn g_check_subports(&self, e: &Expected, who: &str);
    /// Compares the plain graph that implements this one, if there is one.
    fn g_check_plain(&self, _e: &Expected, _who: &str) {}
    /// The same graph made from a plain one, if there is a conversion.
    fn g_of_plain(_: PortGraph) -> Option<Self> {
        None
    }
}

fn roomy<G: PortView>(g: G, nodes: usize, ports: usize) -> G {
    let (a, b) = (g.node_capacity(), g.port_capacity());
    check!(a >= nodes && b >= ports, "capacity", "with_capacity({nodes}, {ports}) gives room for {a} nodes and {b} ports");
    g
}

impl<O: Off> AnyGr for PortGraph<u32, u32, O> {
    type E = PortIndex;
    type O = O;
    const MULTI: bool = false;
    const NAME: &'static str = "PortGraph";
    fn empty() -> Self {
        PortGraph::new()
    }
    fn sized(nodes: usize, ports: usize) -> Self {
        roomy(PortGraph::with_capacity(nodes, ports), nodes, ports)
    }
    fn g_subport_link(&self, s: Ep) -> Option<Ep> {
        self.port_link(p(s.0)).map(|x| x.ep())
    }
    fn g_subports(&self, node: N, d: usize) -> Vec<Ep> {
        self.ports(n(node), dir(d)).map(|x| x.ep()).collect()
    }
    fn g_all_subports(&self, node: N) -> Vec<Ep> {
        self.all_ports(n(node)).map(|x| x.ep()).collect()
    }
    fn g_link_subports(&mut self, a: Ep, b: Ep) -> Result<(), LinkError<Self::O>> {
        self.link_ports(p(a.0), p(b.0)).map(|_| ())
    }
    fn g_unlink_subport(&mut self, s: Ep) -> Option<Ep> {
        self.unlink_port(p(s.0)).map(|x| x.ep())
    }
    fn hidden_nodes(&self) -> Vec<N> {
        vec![]
    }
    fn slots(&self) -> usize {
        self.nodes_iter().map(|x| x.index() + 1).max().unwrap_or(0)
    }
    fn hidden_ports(&self) -> BTreeSet<P> {
        BTreeSet::new()
    }
    fn g_check_subports(&self, _e: &Expected, _who: &str) {}
}
impl<O: Off> AnyGr for MultiPortGraph<u32, u32, O> {
    type E = SubportIndex;
    type O = O;
    const MULTI: bool = true;
    const NAME: &'static str = "MultiPortGraph";
    fn empty() -> Self {
        MultiPortGraph::new()
    }
    fn sized(nodes: usize, ports: usize) -> Self {
        roomy(MultiPortGraph::with_capacity(nodes, ports), nodes, ports)
    }
    fn g_subport_link(&self, s: Ep) -> Option<Ep> {
        self.subport_link(EpT::of(s)).map(|x| x.ep())
    }
    fn g_subports(&self, node: N, d: usize) -> Vec<Ep> {
        self.subports(n(node), dir(d)).map(|x| x.ep()).collect()
    }
    fn g_all_subports(&self, node: N) -> Vec<Ep> {
        self.all_subports(n(node)).map(|x| x.ep()).collect()
    }
    fn g_link_subports(&mut self, a: Ep, b: Ep) -> Result<(), LinkError<Self::O>> {
        MultiMut::link_subports(&mut &mut *self, EpT::of(a), EpT::of(b))
    }
    fn g_unlink_subport(&mut self, s: Ep) -> Option<Ep> {
        MultiMut::unlink_subport(&mut &mut *self, EpT::of(s)).map(|x| x.ep())
    }
    fn hidden_nodes(&self) -> Vec<N> {
        let pg = self.as_portgraph();
        pg.nodes_iter().map(|x| x.index()).filter(|&x| !self.contains_node(n(x))).collect()
    }
    fn slots(&self) -> usize {
        self.as_portgraph().nodes_iter().map(|x| x.index() + 1).max().unwrap_or(0)
    }
    fn hidden_ports(&self) -> BTreeSet<P> {
        let pg = self.as_portgraph();
        pg.ports_iter().map(|x| x.index()).filter(|&q| !self.contains_port(p(q))).collect()
    }
    fn g_check_subports(&self, e: &Expected, who: &str) {
        check_subports(self, e, who);
        check_subports(&self, e, who);
    }
    fn g_check_plain(&self, e: &Expected, who: &str) {
        let pg = self.as_portgraph();
        let hidden: BTreeSet<N> = self.hidden_nodes().into_iter().collect();
        let main = |x: N| self.pg_main_node(n(x)).index();
        for &x in e.nodes.keys() {
            check_eq!(main(x), x, "pg_main_node", "{who}: pg_main_node({x})");
            check!(pg.contains_node(n(x)), "as_portgraph", "{who}: node {x} is missing in the plain graph");
            check_eq!([px(pg.inputs(n(x))), px(pg.outputs(n(x)))], e.nodes[&x], "as_portgraph", "{who}: ports of {x} in the plain graph");
        }
        // Following the plain links over the copy nodes gives the links.
        if hidden.iter().any(|c| pg.num_inputs(n(*c)) < 2 && pg.num_outputs(n(*c)) < 2) {
            return;
        }
        let mut owners: BTreeSet<N> = BTreeSet::new();
        for &c in &hidden {
            let m = main(c);
            check!(e.nodes.contains_key(&m), "pg_main_node", "{who}: pg_main_node({c}) is {m}, which is not a node of the graph");
            check!(pg.all_neighbours(n(c)).any(|y| y.index() == m), "pg_main_node", "{who}: pg_main_node({c}) is {m}, which is not next to it");
            owners.insert(m);
        }
        for &x in &owners {
            check!(e.nodes[&x].iter().flatten().any(|q| pg.port_link(p(*q)).is_some_and(|l| hidden.contains(&pg.port_node(l).unwrap().index()))), "pg_main_node", "{who}: node {x} has no copy node");
        }
        let mut edges: Vec<(N, N)> = vec![];
        for x in pg.nodes_iter() {
            for (a, b) in pg.output_links(x) {
                let (s, t) = (pg.port_node(a).unwrap().index(), pg.port_node(b).unwrap().index());
                let inner = (hidden.contains(&s) != hidden.contains(&t)) && main(s) == main(t) && {
                    // Between a copy node and its own port.
                    let (copy, port) = if hidden.contains(&s) { (s, b) } else { (t, a) };
                    let d = pg.port_direction(port).unwrap();
                    pg.num_ports(n(copy), d.reverse()) == 1
                };
                if !inner {
                    edges.push((main(s), main(t)));
                }
            }
        }
        let mut want: Vec<(N, N)> = e.links.iter().filter(|(s, _)| e.ports[&s.0].1 == OUT).map(|(s, t)| (e.node_of(s.0), e.node_of(t.0))).collect();
        edges.sort();
        want.sort();
        check_eq!(edges, want, "as_portgraph", "{who}: links of the plain graph, followed over the copy nodes");
    }
    fn g_of_plain(g: PortGraph) -> Option<Self> {
        let m: Box<dyn std::any::Any> = Box::new(MultiPortGraph::from(g));
        m.downcast::<Self>().ok().map(|m| *m)
    }
}
