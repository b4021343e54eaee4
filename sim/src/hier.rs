//! Simulated clients of a hierarchy.

use crate::churn::{decode, encode, Codec, CODECS};
use crate::engine::*;
use crate::gr::*;
use crate::{check, check_eq, fail};
use ::portgraph::hierarchy::AttachError;
use ::portgraph::*;
use std::collections::{BTreeMap, VecDeque};

/// A forest as plain lists of children.
#[derive(Clone, Default, Debug, PartialEq, Hash)]
pub struct Forest {
    pub parent: BTreeMap<N, N>,
    pub children: BTreeMap<N, Vec<N>>,
}
impl Forest {
    pub fn kids(&self, x: N) -> &[N] {
        self.children.get(&x).map_or(&[], |v| v)
    }
    pub fn is_ancestor_or_self(&self, a: N, mut x: N) -> bool {
        loop {
            if a == x {
                return true;
            }
            match self.parent.get(&x) {
                Some(p) => x = *p,
                None => return false,
            }
        }
    }
    pub fn ancestors(&self, mut x: N) -> Vec<N> {
        let mut v = vec![x];
        while let Some(p) = self.parent.get(&x) {
            x = *p;
            v.push(x);
        }
        v
    }
    pub fn attach(&mut self, x: N, parent: N, at: usize) {
        self.parent.insert(x, parent);
        self.children.entry(parent).or_default().insert(at, x);
    }
    pub fn detach(&mut self, x: N) -> Option<N> {
        let q = self.parent.remove(&x)?;
        let v = self.children.get_mut(&q).unwrap();
        v.retain(|y| *y != x);
        if v.is_empty() {
            self.children.remove(&q);
        }
        Some(q)
    }
    pub fn detach_children(&mut self, x: N) {
        for y in self.children.remove(&x).unwrap_or_default() {
            self.parent.remove(&y);
        }
    }
    pub fn remove(&mut self, x: N) {
        self.detach_children(x);
        self.detach(x);
    }
    pub fn rename(&mut self, f: impl Fn(N) -> N) {
        self.parent = std::mem::take(&mut self.parent).into_iter().map(|(a, b)| (f(a), f(b))).collect();
        self.children = std::mem::take(&mut self.children).into_iter().map(|(a, b)| (f(a), b.into_iter().map(&f).collect())).collect();
    }
    /// Breadth first.
    pub fn descendants(&self, x: N) -> Vec<N> {
        let mut q = VecDeque::from([x]);
        let mut out = vec![];
        while let Some(x) = q.pop_front() {
            out.push(x);
            q.extend(self.kids(x));
        }
        out
    }
    pub fn bound(&self) -> N {
        self.parent.keys().chain(self.children.keys()).max().map_or(0, |x| x + 1)
    }
}

/// A large forest of some regular shape: what to attach to what, and whether
/// in front of the other children.
pub fn tree(ctx: &mut Ctx, nodes: &[N]) -> Vec<(N, N, bool)> {
    let mut xs = nodes.to_vec();
    let shape = ctx.draw(6);
    let mut r = Rng::new(ctx.draw(1 << 20) as u64);
    let mut below = |n: usize| (r.next() >> 33) as usize % n;
    if below(4) > 0 {
        for i in (1..xs.len()).rev() {
            xs.swap(i, below(i + 1));
        }
    }
    let front = [0, 0, 50, 100][below(4)];
    let arity = 2 + below(3);
    let len = xs.len();
    (1..len)
        .filter_map(|i| {
            let q = match shape {
                // A chain.
                0 => i - 1,
                // A chain with leaves.
                1 => (i - 1) / 2 * 2,
                // One wide family.
                2 => 0,
                // Balanced.
                3 => (i - 1) / arity,
                // Two chains.
                4 if i == len / 2 => return None,
                4 => i - 1,
                _ => below(i),
            };
            Some((xs[i], xs[q], below(100) < front))
        })
        .collect()
}

/// Compares every query of a hierarchy with the model.
pub fn check_hierarchy(h: &Hierarchy, f: &Forest, upto: N, who: &str) {
    for x in 0..upto {
        let nx = n(x);
        let i = |o: Option<NodeIndex>| o.map(|y| y.index());
        let kids = f.kids(x);
        let parent = f.parent.get(&x).copied();
        check_eq!(i(h.parent(nx)), parent, "parent", "{who}: parent({x})");
        check_eq!(h.is_root(nx), parent.is_none(), "is_root", "{who}: is_root({x})");
        check_eq!(i(h.first(nx)), kids.first().copied(), "first", "{who}: first({x})");
        check_eq!(i(h.last(nx)), kids.last().copied(), "last", "{who}: last({x})");
        check_eq!(h.child_count(nx), kids.len(), "child_count", "{who}: child_count({x})");
        check_eq!(h.has_children(nx), !kids.is_empty(), "has_children", "{who}: has_children({x})");
        check_eq!(h.children(nx).len(), kids.len(), "children", "{who}: children({x}).len()");
        let got: Vec<N> = h.children(nx).take(kids.len() + 2).map(|y| y.index()).collect();
        check_eq!(got, kids, "children", "{who}: children({x})");
        let mut got: Vec<N> = h.children(nx).rev().take(kids.len() + 2).map(|y| y.index()).collect();
        got.reverse();
        check_eq!(got, kids, "children", "{who}: reversed children({x})");
        let sib = parent.map_or(&[][..], |q| f.kids(q));
        let at = sib.iter().position(|y| *y == x);
        let (pv, nt) = match at {
            None => (None, None),
            Some(k) => (k.checked_sub(1).map(|k| sib[k]), sib.get(k + 1).copied()),
        };
        check_eq!(i(h.prev(nx)), pv, "prev", "{who}: prev({x})");
        check_eq!(i(h.next(nx)), nt, "next", "{who}: next({x})");
        if upto < 80 || x % 16 == 0 {
            let want = f.descendants(x);
            let got: Vec<N> = h.descendants(nx).take(want.len() + 2).map(|y| y.index()).collect();
            check_eq!(got, want, "descendants", "{who}: descendants({x})");
        }
    }
}

#[derive(Clone, Debug)]
pub enum HCall {
    Push(N, N),
    PushFront(N, N),
    Before(N, N),
    After(N, N),
    Detach(N),
    DetachChildren(N),
    Remove(N),
    Rekey(N, N),
    Swap(N, N),
    Ensure(usize),
    Shrink(usize),
}
impl HCall {
    /// Applies the call and prints its result.
    pub fn apply(&self, h: &mut Hierarchy) -> String {
        match *self {
            HCall::Push(a, b) => format!("{:?}", h.push_child(n(a), n(b))),
            HCall::PushFront(a, b) => format!("{:?}", h.push_front_child(n(a), n(b))),
            HCall::Before(a, b) => format!("{:?}", h.insert_before(n(a), n(b))),
            HCall::After(a, b) => format!("{:?}", h.insert_after(n(a), n(b))),
            HCall::Detach(a) => format!("{:?}", h.detach(n(a))),
            HCall::DetachChildren(a) => {
                h.detach_children(n(a));
                String::new()
            }
            HCall::Remove(a) => {
                h.remove(n(a));
                String::new()
            }
            HCall::Rekey(a, b) => {
                h.rekey(n(a), n(b));
                String::new()
            }
            HCall::Swap(a, b) => {
                h.swap_nodes(n(a), n(b));
                String::new()
            }
            HCall::Ensure(c) => {
                h.ensure_capacity(c);
                String::new()
            }
            HCall::Shrink(c) => {
                h.shrink_to(c);
                String::new()
            }
        }
    }
}

pub struct HWorld {
    pub h: Hierarchy,
    pub f: Forest,
    pub upto: N,
    saved: Option<(Codec, Vec<u8>, Forest)>,
    pub rejected: bool,
    pub last: String,
    pub calls: Vec<HCall>,
    w: Vec<u32>,
}
pub const HOPS: [&str; 14] = [
    "push_child", "push_front_child", "insert_before", "insert_after", "detach", "detach_children", "remove", "rekey", "swap_nodes", "ensure_capacity",
    "shrink_to", "clone", "checkpoint", "crash-restart",
];
const HBASE: [u32; 14] = [20, 10, 12, 12, 10, 3, 4, 5, 7, 2, 1, 1, 2, 2];

impl HWorld {
    pub fn new(ctx: &mut Ctx, upto: N) -> Self {
        let w = HBASE
            .iter()
            .enumerate()
            .map(|(i, b)| if i == 0 { b * 2 } else { [2, 2, 0, 6][ctx.draw(4)] * b })
            .collect();
        let h = match ctx.draw(3) {
            0 => Hierarchy::new(),
            1 => Hierarchy::default(),
            _ => Hierarchy::with_capacity(ctx.draw(20)),
        };
        HWorld { h, f: Forest::default(), upto, saved: None, rejected: false, last: String::new(), calls: vec![], w }
    }
    /// Leaves out clones, checkpoints and restarts.
    pub fn no_restarts(&mut self) {
        for k in [11, 12, 13] {
            self.w[k] = 0;
        }
    }
    fn node(&self, ctx: &mut Ctx) -> N {
        ctx.draw(self.upto)
    }
    /// Builds a large forest at once.
    pub fn populate(&mut self, ctx: &mut Ctx) {
        ctx.probe("large forest");
        let nodes: Vec<N> = (0..self.upto).collect();
        for (x, q, front) in tree(ctx, &nodes) {
            let c = if front { HCall::PushFront(x, q) } else { HCall::Push(x, q) };
            self.last = format!("{c:?}");
            check_eq!(c.apply(&mut self.h), "Ok(())", "attach rejected", "{}", self.last);
            self.calls.push(c);
            let at = if front { 0 } else { self.f.kids(q).len() };
            self.f.attach(x, q, at);
        }
        let l = &self.last;
        ctx.log(|| format!("a large forest, up to {l}"));
    }
    fn call(&mut self, c: HCall) -> String {
        self.last = format!("{c:?}");
        let r = c.apply(&mut self.h);
        self.calls.push(c);
        r
    }
    /// Performs an attaching call. `at` is the parent and position requested.
    fn attach(&mut self, c: HCall, x: N, parent: Option<N>, at: usize, sibling: Option<N>) {
        let before = self.h.clone();
        self.last = format!("{c:?}");
        let r = match c {
            HCall::Push(a, b) => self.h.push_child(n(a), n(b)),
            HCall::PushFront(a, b) => self.h.push_front_child(n(a), n(b)),
            HCall::Before(a, b) => self.h.insert_before(n(a), n(b)),
            HCall::After(a, b) => self.h.insert_after(n(a), n(b)),
            _ => unreachable!(),
        };
        self.calls.push(c);
        let attached = self.f.parent.contains_key(&x);
        let cycle = |q: N| self.f.is_ancestor_or_self(x, q);
        let ok = !attached && parent.is_some_and(|q| !cycle(q));
        match r {
            Ok(()) => {
                check!(ok, "attach accepted", "{}: accepted, but the arguments are invalid", self.last);
                self.f.attach(x, parent.unwrap(), at);
            }
            Err(e) => {
                check!(!ok, "attach rejected", "{}: rejected with {e:?}, but the arguments are valid", self.last);
                let good = match &e {
                    AttachError::AlreadyAttached { node } => node.index() == x && attached,
                    AttachError::RootSibling { root } => sibling == Some(root.index()) && parent.is_none(),
                    AttachError::Cycle { node, parent: q } => node.index() == x && parent == Some(q.index()) && cycle(q.index()),
                };
                check!(good, "attach error", "{}: the error {e:?} does not describe a defect of the arguments", self.last);
                check!(self.h == before, "rejected call", "{}: the call was rejected, but changed the hierarchy", self.last);
                self.rejected = true;
            }
        }
    }
    pub fn step(&mut self, ctx: &mut Ctx) {
        self.rejected = false;
        self.last.clear();
        let k = ctx.weighted(&self.w.clone());
        ctx.op(HOPS[k]);
        match k {
            0 | 1 => {
                let (x, q) = (self.node(ctx), self.node(ctx));
                let at = if k == 0 { self.f.kids(q).len() } else { 0 };
                self.attach(if k == 0 { HCall::Push(x, q) } else { HCall::PushFront(x, q) }, x, Some(q), at, None);
            }
            2 | 3 => {
                let (x, s) = (self.node(ctx), self.node(ctx));
                // Prefer siblings that have a parent.
                let attached: Vec<N> = self.f.parent.keys().copied().collect();
                let s = if ctx.chance(70) { ctx.pick(&attached).copied().unwrap_or(s) } else { s };
                let q = self.f.parent.get(&s).copied();
                let at = q.map_or(0, |q| self.f.kids(q).iter().position(|y| *y == s).unwrap()) + (k == 3) as usize;
                self.attach(if k == 2 { HCall::Before(x, s) } else { HCall::After(x, s) }, x, q, at, Some(s));
            }
            4 => {
                let x = self.node(ctx);
                let before = self.h.clone();
                let got = self.h.detach(n(x)).map(|y| y.index());
                self.last = format!("{:?}", HCall::Detach(x));
                self.calls.push(HCall::Detach(x));
                let want = self.f.detach(x);
                check_eq!(got, want, "detach", "{}", self.last);
                if want.is_none() {
                    check!(self.h == before, "rejected call", "{}: nothing to detach, but the hierarchy changed", self.last);
                    self.rejected = true;
                }
            }
            5 => {
                let x = self.node(ctx);
                self.call(HCall::DetachChildren(x));
                self.f.detach_children(x);
            }
            6 => {
                let x = self.node(ctx);
                self.call(HCall::Remove(x));
                self.f.remove(x);
            }
            7 => {
                let x = self.node(ctx);
                let free: Vec<N> = (0..self.upto + 3).filter(|y| *y == x || (!self.f.parent.contains_key(y) && !self.f.children.contains_key(y))).collect();
                let y = *ctx.pick(&free).unwrap();
                self.call(HCall::Rekey(x, y));
                self.f.rename(|z| if z == x { y } else { z });
            }
            8 => {
                let (x, y) = (self.node(ctx), self.node(ctx));
                self.call(HCall::Swap(x, y));
                self.f.rename(|z| if z == x { y } else if z == y { x } else { z });
            }
            9 => {
                let c = ctx.draw(60);
                self.call(HCall::Ensure(c));
            }
            10 => {
                let c = ctx.draw(self.upto + 6);
                self.call(HCall::Shrink(c));
                for x in c..self.f.bound() {
                    self.f.remove(x);
                }
            }
            11 => {
                self.last = "clone".into();
                let c = self.h.clone();
                check!(c == self.h, "clone", "the clone differs from the original");
                self.h = c;
            }
            12 => {
                let c = *ctx.pick(&CODECS).unwrap();
                self.last = format!("checkpoint({c:?})");
                self.saved = Some((c, encode(c, &self.h), self.f.clone()));
            }
            _ => {
                if let Some((c, b, f)) = self.saved.clone() {
                    ctx.fault("crash and restart from checkpoint");
                    self.last = format!("crash, restart from the {c:?} checkpoint");
                    self.h = decode(c, &b);
                    self.f = f;
                }
            }
        }
        let (l, r) = (&self.last, self.rejected);
        ctx.log(|| format!("{l}{}", if r { " [rejected]" } else { "" }));
        if r {
            ctx.probe("rejected or absent");
        }
        ctx.state(fingerprint(&self.f));
    }
    pub fn check(&self) {
        if self.f.parent.iter().any(|(x, q)| !self.f.kids(*q).contains(x)) {
            fail!("model", "broken model");
        }
        check_hierarchy(&self.h, &self.f, self.upto + 5, &format!("after {}", self.last));
    }
}
