//! Diagrams of graphs, views and hierarchies.

use super::c_panic::brittle;
use super::c_views::scene_mix;
use super::CheckDef;
use crate::churn::*;
use crate::engine::*;
use crate::gr::*;
use crate::hier::Forest;
use crate::model::*;
use crate::scene::*;
use crate::seam::tick;
use crate::{check, check_eq, fail, with_view};
use ::portgraph::render::{DotFormat, EdgeStyle, MermaidFormat, NodeStyle, PortStyle, PresentationStyle};
use ::portgraph::*;
use std::collections::{BTreeMap, BTreeSet};

pub const P23: CheckDef = CheckDef {
    id: "P23",
    f: p23,
    quick_runs: 90_000,
    thorough_runs: 1_800_000,
    about: "a graph and its hierarchy are changed by interleaved clients through crashes and restarts; at random moments the graph, a drawn view of it, or a view of a custom graph is drawn as a dot or mermaid diagram with drawn styles and hostile labels; the text is parsed and compared with the model, and rendered again with other hash seeds, from clones and restored checkpoints, and after panics in the styling code",
    real: "DotFormatter, MermaidFormatter, the graphs, views and hierarchies underneath, std hash maps with different keys",
    stub: "styling functions, filters and the custom graph behind views (simulated caller code, where panics are injected), the source of hash keys, the durable store of checkpoints (memory)",
    assumes: &[
        "the reference model states the intended behaviour",
        "a line-based parser of the dot and mermaid statements that the formatters produce",
        "labels of dot diagrams are markup supplied by the caller",
    ],
};
fn p23(ctx: &mut Ctx) {
    if ctx.draw(2) == 0 {
        diagrams::<PortGraph>(ctx)
    } else {
        diagrams::<MultiPortGraph>(ctx)
    }
}
fn diagrams<G: Gr>(ctx: &mut Ctx) {
    let mix = scene_mix(ctx, &[5, 8, 12]);
    ctx.max_steps = ctx.range(4, if ctx.thorough { 60 } else { 36 });
    let mut s = Scene::<G>::new(ctx, mix);
    while ctx.next_step() {
        s.step(ctx);
        if ctx.chance(10) {
            draw(ctx, &s);
        }
    }
    draw(ctx, &s);
    s.w.check();
}

fn draw<G: Gr>(ctx: &mut Ctx, s: &Scene<G>) {
    let e = &s.w.m.e;
    let how = How::draw(ctx);
    ctx.log(|| format!("{how:?}"));
    let forest = (!ctx.chance(25)).then_some((&s.h, &s.f));
    match ctx.draw(4) {
        0 | 1 => {
            ctx.op("graph");
            let text = picture(ctx, &s.w.g, e, forest, &how, G::NAME);
            // The same graph elsewhere.
            if ctx.chance(30) {
                ctx.fault("restart before rendering again");
                let c = *ctx.pick(&CODECS).unwrap();
                let g: G = decode(c, &encode(c, &s.w.g));
                let h: Hierarchy = decode(c, &encode(c, &s.h));
                let again = how.render(&g, forest.map(|_| &h));
                check_eq!(again, text, "deterministic", "the diagram of a restored {}", G::NAME);
            }
        }
        2 => {
            let plan = Plan::draw(ctx, e, &s.f);
            let e2 = plan.expected(e, &s.f);
            ctx.op(plan.label());
            ctx.log(|| format!("{plan:?}"));
            with_view!(&plan, &s.w.g, &s.h, |v| {
                picture(ctx, &v, &e2, forest, &how, plan.label());
            });
        }
        _ => {
            let base = Erased::<G::E>::new(&s.w.g, None);
            let (plan, plan2) = (Plan::draw(ctx, e, &s.f), Plan::draw(ctx, e, &s.f));
            let e2 = plan.expected(e, &s.f);
            // Subgraphs and regions are about nodes of their base.
            let plan2 = match plan2 {
                Plan::Filter { .. } | Plan::NodeFilter { .. } => plan2,
                _ => Plan::Filter { nodes: false, ports: false, sets: Sets::default() },
            };
            let e3 = plan2.expected(&e2, &s.f);
            ctx.op("view of a view of a custom graph");
            ctx.log(|| format!("{plan:?} then {plan2:?}"));
            with_view!(&plan, base, &s.h, |v| {
                with_view!(&plan2, &v, &s.h, |v| {
                    picture(ctx, &v, &e3, forest, &how, &format!("{} over {}", plan2.label(), plan.label()));
                })
            });
        }
    }
}

/// Text that is likely to break a diagram.
const NASTY: [&str; 16] =
    ["", "x", "\"a\" \"b\"\n\"c\"\n\n\n\"", "#quot;\"\"\"", "a \"quoted\" word", "two\nlines", "]", "end", "1-->2", "#quot;", "a<br>b", "%% ; ---", "λ✓", "[\"", "subgraph 0 [0]", "\\\"\n\n\""];
/// Labels without markup.
const PLAIN: [&str; 7] = ["", "x", "some text", "a -> b", "end ; [x]", "\"q\"", "λ✓"];

/// What the simulated styling code answers.
#[derive(Clone, Debug, PartialEq)]
struct How {
    mermaid: bool,
    /// 0: no style functions, 1: drawn styles, 2: weights.
    style: usize,
    /// Selects labels and attributes.
    salt: usize,
    hide: bool,
}
impl How {
    fn draw(ctx: &mut Ctx) -> How {
        How { mermaid: ctx.draw(2) == 0, style: *ctx.pick(&[1, 0, 2]).unwrap(), salt: ctx.draw(1000), hide: ctx.chance(40) }
    }
    fn hash(&self, kind: usize, x: usize, y: usize) -> usize {
        let mut r = Rng::new((self.salt as u64) << 40 ^ (kind as u64) << 32 ^ (x as u64) << 16 ^ y as u64);
        (r.next() >> 20) as usize
    }
    fn text(&self, kind: usize, x: usize, y: usize) -> String {
        let set: &[&str] = if self.mermaid { &NASTY } else { &PLAIN };
        let s = set[self.hash(kind, x, y) % set.len()];
        if s.is_empty() {
            s.to_string()
        } else {
            format!("{s} {kind}/{x}/{y}")
        }
    }
    fn hidden(&self, x: N) -> bool {
        self.style == 1 && self.hide && self.hash(1, x, 0) % 4 == 0
    }
    /// The label of a node, empty for the default.
    fn label(&self, x: N) -> String {
        match self.style {
            0 if self.mermaid => String::new(),
            0 => x.to_string(),
            _ => self.text(2, x, 0),
        }
    }
    fn attrs(&self, x: N) -> PresentationStyle {
        let mut a = PresentationStyle::new();
        if self.style == 1 && self.hash(3, x, 0) % 7 != 0 {
            let h = self.hash(4, x, 0);
            a.color = (h & 1 != 0).then(|| "#f00".to_string());
            a.fill = (h & 2 != 0).then(|| format!("#0f{}", x % 10));
            a.stroke = (h & 4 != 0).then(|| "#00f".to_string());
            a.stroke_width = (h & 8 != 0).then(|| format!("{}px", x % 10));
        }
        a
    }
    #[allow(deprecated)]
    fn node(&self, x: N) -> NodeStyle {
        tick("node style");
        if self.hidden(x) {
            NodeStyle::Hidden
        } else if self.hash(3, x, 0) % 7 == 0 {
            NodeStyle::Box(self.label(x))
        } else if self.hash(3, x, 0) % 7 == 1 {
            NodeStyle::new(self.label(x)).with_attrs(self.attrs(x))
        } else {
            NodeStyle::boxed(self.label(x)).with_attrs(self.attrs(x))
        }
    }
    /// Whether a port is shown, and its label with the offset prepended or not.
    fn port_label(&self, x: P, offset: usize) -> Option<String> {
        let join = |s: String| if s.is_empty() { offset.to_string() } else { format!("{offset}: {s}") };
        match self.style {
            0 => Some(offset.to_string()),
            2 => Some(join(self.text(5, x, 0))),
            _ => match self.hash(6, x, 0) % 5 {
                0 => None,
                1 | 3 => Some(join(self.text(5, x, 0))),
                _ => Some(self.text(5, x, 0)),
            },
        }
    }
    fn port(&self, x: P) -> PortStyle {
        tick("port style");
        let s = self.text(5, x, 0);
        match self.hash(6, x, 0) % 5 {
            0 => PortStyle::Hidden,
            1 => PortStyle::text(s, true),
            2 => PortStyle::text(s, false),
            3 => PortStyle::boxed(s, true),
            _ => PortStyle::boxed(s, false),
        }
    }
    /// The base style and the label of a link.
    fn link(&self, a: Ep, b: Ep) -> (usize, Option<String>) {
        if self.style != 1 {
            return (0, None);
        }
        let h = self.hash(7, a.0 * 8 + a.1, b.0 * 8 + b.1);
        (h % 4, (h & 16 != 0).then(|| self.text(8, a.0 * 8 + a.1, b.0 * 8 + b.1)))
    }
    fn edge(&self, a: Ep, b: Ep) -> EdgeStyle {
        tick("edge style");
        let (base, label) = self.link(a, b);
        let base = match base {
            0 => EdgeStyle::Solid,
            1 => EdgeStyle::Dotted,
            2 => EdgeStyle::Dashed,
            _ => EdgeStyle::Custom(if self.mermaid { "==>" } else { "bold" }.to_string()),
        };
        match label {
            None => base,
            // The outermost label is the one to show.
            Some(l) if self.hash(9, a.0, b.0) % 3 == 0 => EdgeStyle::Labelled(l, Box::new(base.with_label("inner"))),
            Some(l) => base.with_label("replaced").with_label(l),
        }
    }
    fn render<V>(&self, v: &V, h: Option<&Hierarchy>) -> String
    where
        V: LinkView<PortOffsetBase = u16>,
        V::LinkEndpoint: EpT,
    {
        let mut weights: Weights<String, String> = Weights::new();
        if self.style == 2 {
            for x in v.nodes_iter() {
                weights[x] = self.label(x.index());
                for q in v.all_ports(x) {
                    weights[q] = self.text(5, q.index(), 0);
                }
            }
        }
        macro_rules! go {
            ($f:expr) => {{
                let mut f = $f;
                if let Some(h) = h {
                    f = f.with_hierarchy(h);
                }
                match self.style {
                    1 => f = f.with_node_style(|x| self.node(x.index())).with_edge_style(|a, b| self.edge(a.ep(), b.ep())),
                    2 => f = f.with_weights(&weights),
                    _ => {}
                }
                f
            }};
        }
        if self.mermaid {
            go!(v.mermaid_format()).finish()
        } else {
            let f = go!(v.dot_format());
            if self.style == 1 {
                f.with_port_style(|q| self.port(q.index())).finish()
            } else {
                f.finish()
            }
        }
    }
}

/// Renders a view, again and again, and checks the diagram.
fn picture<V>(ctx: &mut Ctx, v: &V, e: &Expected, forest: Option<(&Hierarchy, &Forest)>, how: &How, who: &str) -> String
where
    V: LinkView<PortOffsetBase = u16>,
    V::LinkEndpoint: EpT,
{
    let h = forest.map(|f| f.0);
    if ctx.chance(30) {
        brittle(ctx, |_| how.render(v, h));
    }
    let text = how.render(v, h);
    ctx.state(fingerprint(&text));
    ctx.log(|| format!("{who}:\n{text}"));
    if ctx.chance(40) {
        // Every hash map created in this thread has other keys.
        ctx.fault("other hash seeds");
        check_eq!(how.render(v, h), text, "deterministic", "{who}: the diagram rendered a second time");
    }
    if how.style == 0 && h.is_none() {
        let short = if how.mermaid { v.mermaid_string() } else { v.dot_string() };
        check_eq!(short, text, "deterministic", "{who}: mermaid_string or dot_string");
    }
    if how.mermaid {
        check_mermaid(&text, e, forest.map(|f| f.1), how, who);
    } else {
        check_dot(&text, e, forest.map(|f| f.1), how, who);
    }
    text
}

fn number(s: &str) -> Option<(N, &str)> {
    let end = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    Some((s[..end].parse().ok()?, &s[end..]))
}
/// A mermaid label without its encoding.
fn plain(s: &str) -> String {
    s.replace("#quot;", "\"").replace("<br>", "\n")
}
/// Whether the bracketed text is the encoding of a label.
fn label_is(s: &str, id: N, want: &str) -> bool {
    if want.is_empty() {
        return s == id.to_string();
    }
    match s.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
        Some(s) => !s.contains('"') && plain(s) == plain(want),
        None => false,
    }
}

fn check_mermaid(text: &str, e: &Expected, f: Option<&Forest>, how: &How, who: &str) {
    let parent = |x: N| f.and_then(|f| f.parent.get(&x).copied()).filter(|q| e.nodes.contains_key(q));
    let mut lines = text.lines().map(str::trim);
    check!(lines.next().is_some_and(|l| l.starts_with("graph ")), "mermaid", "{who}: no graph header");
    // Open subgraphs.
    let mut open: Vec<N> = vec![];
    let mut seen: BTreeSet<N> = BTreeSet::new();
    let mut styles: BTreeMap<N, String> = BTreeMap::new();
    let mut links: Vec<(N, N, String)> = vec![];
    let node = |x: N, at: Option<N>, seen: &mut BTreeSet<N>| {
        check!(e.nodes.contains_key(&x), "nodes", "{who}: the diagram mentions {x}, which is not in the graph");
        check!(seen.insert(x), "nodes", "{who}: the diagram mentions {x} twice");
        check_eq!(at, parent(x), "nesting", "{who}: subgraph around {x}");
    };
    for l in lines {
        if let Some(r) = l.strip_prefix("subgraph ") {
            let Some((x, r)) = number(r) else { fail!("mermaid", "{who}: line {l:?}") };
            node(x, open.last().copied(), &mut seen);
            open.push(x);
            let label = r.trim().strip_prefix('[').and_then(|r| r.strip_suffix(']'));
            let ok = match label {
                Some(s) => (how.hidden(x) && s.trim().is_empty()) || (!how.hidden(x) && label_is(s, x, &how.label(x))),
                None => false,
            };
            check!(ok, "label", "{who}: subgraph {x} labelled {:?}: {l:?}", how.label(x));
        } else if l == "end" {
            check!(open.pop().is_some(), "nesting", "{who}: end without subgraph");
        } else if l.starts_with("direction ") {
            check!(!open.is_empty(), "mermaid", "{who}: line {l:?} outside of subgraphs");
        } else if let Some(r) = l.strip_prefix("style ") {
            let Some((x, r)) = number(r) else { fail!("mermaid", "{who}: line {l:?}") };
            check!(seen.contains(&x), "style", "{who}: style of {x} before its definition");
            check!(styles.insert(x, r.trim().to_string()).is_none(), "style", "{who}: two styles of {x}");
        } else {
            let Some((x, r)) = number(l) else { fail!("mermaid", "{who}: line {l:?}") };
            let r = r.trim();
            if r == ":::hidden" {
                check!(how.hidden(x), "hidden", "{who}: node {x} is hidden");
                node(x, open.last().copied(), &mut seen);
            } else if let Some(s) = r.strip_prefix('[').and_then(|r| r.strip_suffix(']')) {
                node(x, open.last().copied(), &mut seen);
                check!(!how.hidden(x) && label_is(s, x, &how.label(x)), "label", "{who}: node {x} labelled {:?}: {l:?}", how.label(x));
            } else {
                let end = r.rfind(|c: char| !c.is_ascii_digit()).map_or(0, |k| k + r[k..].chars().next().unwrap().len_utf8());
                let Ok(y) = r[end..].parse::<N>() else { fail!("mermaid", "{who}: line {l:?}") };
                check!(seen.contains(&x) && seen.contains(&y), "links", "{who}: link {l:?} before its nodes");
                // A link inside a subgraph moves its nodes there.
                for z in [x, y] {
                    if let Some(q) = open.last() {
                        let inside = std::iter::successors(parent(z), |z| parent(*z)).any(|z| z == *q);
                        check!(inside, "nesting", "{who}: link {l:?} inside subgraph {q} moves {z} there");
                    }
                }
                links.push((x, y, r[..end].trim().to_string()));
            }
        }
    }
    check!(open.is_empty(), "nesting", "{who}: subgraph without end");
    for x in e.nodes.keys() {
        check!(seen.contains(x), "nodes", "{who}: the diagram does not mention node {x}");
        let a = how.attrs(*x);
        let mut want: Vec<String> = vec![];
        for (k, v) in [("color", a.color), ("fill", a.fill), ("stroke", a.stroke), ("stroke-width", a.stroke_width)] {
            want.extend(v.map(|v| format!("{k}:{v}")));
        }
        if how.hidden(*x) {
            want.clear();
        }
        let got = styles.get(x).map(|s| sorted(s.split(',').map(str::to_string))).unwrap_or_default();
        check_eq!(got, sorted(want), "style", "{who}: style of {x}");
    }
    let arrow = |a: Ep, b: Ep| {
        let (base, label) = how.link(a, b);
        let wrap = |x: &str, l: &str, y: &str| if l.is_empty() { format!("{x}{y}") } else { format!("{x}\"{}\"{y}", plain(l)) };
        match (base, label) {
            (0, None) => "-->".to_string(),
            (0, Some(l)) => wrap("--", &l, "-->"),
            (1 | 2, None) => "-.->".to_string(),
            (1 | 2, Some(l)) => wrap("-.", &l, ".->"),
            _ => "==>".to_string(),
        }
    };
    for (_, _, s) in &links {
        let quotes = s.matches('"').count();
        check!(quotes == 0 || quotes == 2, "label", "{who}: link label {s:?}");
    }
    let got = sorted(links.into_iter().map(|(x, y, s)| (x, y, plain(&s))));
    let want = sorted(e.edges().into_iter().map(|(a, b)| (e.node_of(a.0), e.node_of(b.0), arrow(a, b))).filter(|(x, y, _)| !how.hidden(*x) && !how.hidden(*y)));
    check_eq!(got, want, "links", "{who}: links");
}

/// The values of the attributes in a tag or bracket, with or without quotes.
fn attr<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    for (k, _) in s.match_indices(key) {
        if k > 0 && !s[..k].ends_with([' ', '[', ',']) {
            continue;
        }
        let r = s[k + key.len()..].trim_start();
        if let Some(r) = r.strip_prefix('=') {
            let r = r.trim_start();
            return match r.strip_prefix('"') {
                Some(r) => r.find('"').map(|k| &r[..k]),
                None => Some(r.split([' ', ']', '>']).next().unwrap()),
            };
        }
    }
    None
}
/// The rows of a table: attributes and content of the cells.
fn table(s: &str) -> Option<Vec<Vec<(&str, &str)>>> {
    let s = s.trim().strip_prefix("<table")?;
    let s = &s[s.find('>')? + 1..];
    let mut s = s.strip_suffix("</table>")?;
    let mut rows = vec![];
    while let Some(r) = s.trim().strip_prefix("<tr>") {
        let end = r.find("</tr>")?;
        let mut cells = vec![];
        let mut c = &r[..end];
        while let Some(d) = c.trim_start().strip_prefix("<td") {
            let k = d.find('>')?;
            let end = d.find("</td>")?;
            cells.push((&d[..k], &d[k + 1..end]));
            c = &d[end + 5..];
        }
        if !c.trim().is_empty() {
            return None;
        }
        rows.push(cells);
        s = &r[end + 5..];
    }
    s.trim().is_empty().then_some(rows)
}

fn check_dot(text: &str, e: &Expected, f: Option<&Forest>, how: &How, who: &str) {
    let text = text.trim();
    let Some(body) = text.strip_prefix("digraph {").and_then(|t| t.strip_suffix('}')) else { fail!("dot", "{who}: no digraph") };
    let mut seen: BTreeSet<N> = BTreeSet::new();
    let mut hier: BTreeSet<N> = BTreeSet::new();
    let mut links: Vec<((N, usize), (N, usize), String)> = vec![];
    let mut tree: Vec<(N, N)> = vec![];
    let bad = |l: &str| -> ! { fail!("dot", "{who}: line {l:?}") };
    for l in body.lines().map(str::trim).filter(|l| !l.is_empty()) {
        if let Some(r) = l.strip_prefix("hier") {
            let Some((x, r)) = number(r) else { bad(l) };
            check!(e.nodes.contains_key(&x), "nesting", "{who}: the hierarchy shows {x}, which is not in the graph");
            if let Some(r) = r.trim().strip_prefix("-> hier") {
                let Some((y, _)) = number(r) else { bad(l) };
                tree.push((x, y));
            } else {
                let id = x.to_string();
                check_eq!(attr(r, "label"), Some(id.as_str()), "label", "{who}: {l:?}");
                check!(hier.insert(x), "nesting", "{who}: the hierarchy shows {x} twice");
            }
            continue;
        }
        let Some((x, r)) = number(l) else { bad(l) };
        if let Some(r) = r.strip_prefix(":out") {
            let Some((i, r)) = number(r) else { bad(l) };
            let Some(r) = r.trim().strip_prefix("->") else { bad(l) };
            let Some((y, r)) = number(r.trim()) else { bad(l) };
            let Some(r) = r.strip_prefix(":in") else { bad(l) };
            let Some((j, r)) = number(r) else { bad(l) };
            links.push(((x, i), (y, j), attr(r, "style").unwrap_or_default().to_string()));
            continue;
        }
        check!(e.nodes.contains_key(&x), "nodes", "{who}: the diagram mentions {x}, which is not in the graph");
        check!(seen.insert(x), "nodes", "{who}: the diagram mentions {x} twice");
        check!(!how.hidden(x), "hidden", "{who}: hidden node {x} is drawn");
        let Some(k) = r.find("label=<") else { bad(l) };
        let Some(t) = r[k + 7..].trim().strip_suffix(">]") else { bad(l) };
        let head = &r[..k];
        let a = how.attrs(x);
        for (k, v) in [("fontcolor", a.color), ("fillcolor", a.fill), ("color", a.stroke), ("penwidth", a.stroke_width)] {
            check_eq!(attr(head, k), v.as_deref(), "style", "{who}: {k} of {x}");
        }
        let Some(rows) = table(t) else { bad(l) };
        let mut want: Vec<Vec<(String, String)>> = vec![];
        for d in [IN, OUT] {
            let name = ["in", "out"][d];
            let ports = e.nodes[&x][d].iter().enumerate();
            let row: Vec<_> = ports.filter_map(|(i, q)| how.port_label(*q, i).map(|s| (format!("{name}{i}"), s))).collect();
            if !row.is_empty() {
                want.push(row);
            }
            if d == IN {
                want.push(vec![(String::new(), how.label(x))]);
            }
        }
        let got: Vec<Vec<(String, String)>> =
            rows.iter().map(|r| r.iter().map(|(a, c)| (attr(a, "port").unwrap_or_default().to_string(), c.to_string())).collect()).collect();
        check_eq!(got, want, "ports", "{who}: table of node {x}");
        let widths: BTreeSet<usize> = rows.iter().map(|r| r.iter().map(|(a, _)| attr(a, "colspan").and_then(|s| s.parse().ok()).unwrap_or(1)).sum()).collect();
        check!(widths.len() == 1, "ports", "{who}: rows of different widths in the table of node {x}: {l:?}");
    }
    for x in e.nodes.keys() {
        check!(how.hidden(*x) || seen.contains(x), "nodes", "{who}: the diagram does not show node {x}");
    }
    let at = |a: Ep| (e.node_of(a.0), e.ports[&a.0].2);
    let want = e.edges().into_iter().map(|(a, b)| (at(a), at(b), ["", "dotted", "dashed", "bold"][how.link(a, b).0].to_string()));
    let want = sorted(want.filter(|(a, b, _)| !how.hidden(a.0) && !how.hidden(b.0)));
    check_eq!(sorted(links), want, "links", "{who}: links");
    let (nodes, edges) = match f {
        None => Default::default(),
        Some(f) => (
            e.nodes.keys().copied().collect::<BTreeSet<N>>(),
            sorted(e.nodes.keys().filter_map(|x| f.parent.get(x).filter(|q| e.nodes.contains_key(q)).map(|q| (*q, *x)))),
        ),
    };
    check!(nodes.iter().all(|x| hier.contains(x) || how.hidden(*x)) && hier.is_subset(&nodes), "nesting", "{who}: the hierarchy shows {hier:?} instead of {nodes:?}");
    check_eq!(sorted(tree), edges, "nesting", "{who}: the hierarchy");
}
