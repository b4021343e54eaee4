//! Secondary maps as total maps with a default value.

use super::graph::OwnMap;
use super::CheckDef;
use crate::churn::{decode, encode, Codec, CODECS};
use crate::engine::*;
use crate::{check, check_eq};
use bitvec::vec::BitVec;
use ::portgraph::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;

pub const P07: CheckDef = CheckDef {
    id: "P07",
    f: p07,
    quick_runs: 80_000,
    thorough_runs: 2_000_000,
    about: "one client drives one kind of secondary map (dense maps of several key and value types and defaults, Weights, bit vectors, hash sets, a caller's own map) through sets, takes, removals, moves, swaps, capacity calls, clones, and crashes and restarts from checkpoints; every key and the iteration are compared with a plain map after every step",
    real: "UnmanagedDenseMap (trait and inherent methods), Weights, SecondaryMap for BitVec and HashSet, the default methods of SecondaryMap, serde codecs",
    stub: "a caller-defined SecondaryMap over BTreeMap, to exercise the default methods; the durable store of checkpoints (memory)",
    assumes: &["the reference model (a map with a default) states the intended behaviour", "keys are below about 70000; shrinking a dense map below a key resets that key, as documented"],
};

/// What a kind of map offers beyond the trait.
trait Kind {
    type K: Copy + Debug + Into<usize> + TryFrom<usize> + 'static;
    type V: Clone + PartialEq + Debug + 'static;
    type M: SecondaryMap<Self::K, Self::V> + Clone;
    const NAME: &'static str;
    fn make(ctx: &mut Ctx) -> (Self::M, Self::V);
    fn key(i: usize) -> Self::K {
        Self::K::try_from(i).ok().unwrap()
    }
    /// The value number `v`; 0 is the default of the type.
    fn val(v: usize) -> Self::V;
    fn restart(_m: &Self::M, _c: Codec) -> Option<Self::M> {
        None
    }
    /// An operation of the type itself. Updates the model.
    fn own(_m: &mut Self::M, _model: &mut Model<Self::V>, _ctx: &mut Ctx, _keys: &[usize]) -> Option<String> {
        None
    }
}

struct Model<V> {
    map: BTreeMap<usize, V>,
    dflt: V,
}
impl<V: Clone + PartialEq> Model<V> {
    fn get(&self, k: usize) -> V {
        self.map.get(&k).unwrap_or(&self.dflt).clone()
    }
    fn set(&mut self, k: usize, v: V) {
        if v == self.dflt {
            self.map.remove(&k);
        } else {
            self.map.insert(k, v);
        }
    }
    fn take(&mut self, k: usize) -> V {
        let v = self.get(k);
        self.map.remove(&k);
        v
    }
    fn rekey(&mut self, a: usize, b: Option<usize>) {
        let v = self.take(a);
        if let Some(b) = b {
            self.set(b, v);
        }
    }
    fn swap(&mut self, a: usize, b: usize) {
        let (x, y) = (self.get(a), self.get(b));
        self.set(a, y);
        self.set(b, x);
    }
}

fn dense_own<K, V>(m: &mut UnmanagedDenseMap<K, V>, model: &mut Model<V>, ctx: &mut Ctx, keys: &[usize], val: fn(usize) -> V) -> Option<String>
where
    K: Copy + Debug + Eq + Into<usize> + TryFrom<usize> + 'static,
    V: Clone + Default + PartialEq + Debug,
{
    let key = |i: usize| K::try_from(i).ok().unwrap();
    let (a, b, c) = (*ctx.pick(keys).unwrap(), *ctx.pick(keys).unwrap(), *ctx.pick(keys).unwrap());
    let v = val(ctx.draw(5));
    Some(match ctx.draw(10) {
        0 => {
            *m.get_mut(key(a)) = v.clone();
            model.set(a, v);
            format!("get_mut({a})")
        }
        1 => {
            m[key(a)] = v.clone();
            model.set(a, v);
            format!("[{a}] =")
        }
        2 => {
            match m.try_get_mut(key(a)) {
                Some(x) => {
                    check_eq!(*x, model.get(a), "try_get_mut", "try_get_mut({a})");
                    *x = v.clone();
                    model.set(a, v);
                }
                None => check_eq!(model.dflt, model.get(a), "try_get_mut", "try_get_mut({a}) is none"),
            }
            format!("try_get_mut({a})")
        }
        3 => {
            m.rekey(key(a), Some(key(b)));
            model.rekey(a, Some(b));
            format!("rekey({a}, {b})")
        }
        4 => {
            m.swap(key(a), key(b));
            model.swap(a, b);
            format!("swap({a}, {b})")
        }
        5 => {
            let to = ctx.draw(80);
            m.shrink_to(to);
            model.map.retain(|k, _| *k < to);
            format!("shrink_to({to})")
        }
        6 => {
            let to = ctx.draw(300);
            m.ensure_capacity(to);
            check!(m.capacity() >= to, "capacity", "capacity() is {} after ensure_capacity({to})", m.capacity());
            format!("ensure_capacity({to})")
        }
        7 => {
            let distinct = a != b && b != c && a != c;
            match m.get_disjoint_mut([key(a), key(b), key(c)]) {
                None => check!(!distinct, "get_disjoint_mut", "get_disjoint_mut({a}, {b}, {c}) is none for different keys"),
                Some(refs) => {
                    check!(distinct, "get_disjoint_mut", "get_disjoint_mut({a}, {b}, {c}) gave several references to one key");
                    for (r, k) in refs.iter().zip([a, b, c]) {
                        check_eq!(**r, model.get(k), "get_disjoint_mut", "get_disjoint_mut({a}, {b}, {c}) at {k}");
                    }
                    let [x, y, z] = refs;
                    std::mem::swap(x, y);
                    *z = v.clone();
                    model.swap(a, b);
                    model.set(c, v);
                }
            }
            format!("get_disjoint_mut({a}, {b}, {c})")
        }
        8 => {
            // A map with the same contents, but another past.
            let mut twin = match ctx.draw(3) {
                0 => UnmanagedDenseMap::with_default(model.dflt.clone()),
                1 => UnmanagedDenseMap::with_capacity_and_default(ctx.draw(300), model.dflt.clone()),
                _ => m.clone(),
            };
            let dirty = ctx.subset(keys, 30);
            for k in &dirty {
                twin[key(*k)] = v.clone();
            }
            let mut order = keys.to_vec();
            ctx.shuffle(&mut order);
            for k in order {
                if dirty.contains(&k) || twin.get(key(k)) != &model.get(k) {
                    twin.set(key(k), model.get(k));
                }
            }
            if ctx.chance(20) {
                twin.shrink_to(model.map.keys().next_back().map_or(0, |k| k + 1));
            }
            check!(*m == twin && twin == *m && !(*m != twin), "equality", "maps with equal contents are not equal: {m:?} and {twin:?}");
            if model.get(a) != v {
                twin.set(key(a), v);
                check!(*m != twin && twin != *m && !(*m == twin), "equality", "maps that differ at {a} are equal: {m:?} and {twin:?}");
            }
            for k in keys {
                check_eq!(m[key(*k)], model.get(*k), "index", "[{k}]");
            }
            "==".to_string()
        }
        _ => {
            m.rekey(key(a), None);
            model.rekey(a, None);
            format!("rekey({a}, none)")
        }
    })
}

macro_rules! dense {
    ($name:ident, $k:ty, $v:ty, $val:expr) => {
        struct $name;
        impl Kind for $name {
            type K = $k;
            type V = $v;
            type M = UnmanagedDenseMap<$k, $v>;
            const NAME: &'static str = concat!("UnmanagedDenseMap<", stringify!($k), ", ", stringify!($v), ">");
            fn make(ctx: &mut Ctx) -> (Self::M, Self::V) {
                let c = ctx.draw(70);
                let zero = Self::val(0);
                match ctx.draw(7) {
                    0 => (UnmanagedDenseMap::new(), zero),
                    1 => (UnmanagedDenseMap::default(), zero),
                    2 => (UnmanagedDenseMap::with_capacity(c), zero),
                    3 => (<Self::M as SecondaryMap<$k, $v>>::new(), zero),
                    4 => (<Self::M as SecondaryMap<$k, $v>>::with_capacity(c), zero),
                    5 => (UnmanagedDenseMap::with_default(Self::val(2)), Self::val(2)),
                    _ => (UnmanagedDenseMap::with_capacity_and_default(c, Self::val(3)), Self::val(3)),
                }
            }
            fn val(v: usize) -> $v {
                #[allow(clippy::redundant_closure_call)]
                ($val)(v)
            }
            fn restart(m: &Self::M, c: Codec) -> Option<Self::M> {
                let r: Self::M = decode(c, &encode(c, m));
                check!(r == *m, "restart", "the restored map differs from the original");
                Some(r)
            }
            fn own(m: &mut Self::M, model: &mut Model<$v>, ctx: &mut Ctx, keys: &[usize]) -> Option<String> {
                dense_own(m, model, ctx, keys, Self::val)
            }
        }
    };
}
dense!(DenseNode, NodeIndex, u64, |v: usize| v as u64 * 7);
dense!(DensePort, PortIndex, String, |v: usize| "x".repeat(v));
dense!(DenseUsize, usize, Option<Vec<u8>>, |v: usize| (v > 0).then(|| vec![v as u8; v]));

struct Bits;
impl Kind for Bits {
    type K = NodeIndex;
    type V = bool;
    type M = BitVec;
    const NAME: &'static str = "BitVec";
    fn make(ctx: &mut Ctx) -> (BitVec, bool) {
        if ctx.chance(50) {
            (<BitVec as SecondaryMap<NodeIndex, bool>>::new(), false)
        } else {
            (<BitVec as SecondaryMap<NodeIndex, bool>>::with_capacity(ctx.draw(200)), false)
        }
    }
    fn val(v: usize) -> bool {
        v % 2 == 1
    }
    fn restart(m: &BitVec, c: Codec) -> Option<BitVec> {
        // Restoring bit vectors is the work of the bitvec crate.
        let ones: Vec<usize> = decode(c, &encode(c, &m.iter_ones().collect::<Vec<_>>()));
        let mut r = BitVec::new();
        for k in ones {
            SecondaryMap::<NodeIndex, bool>::set(&mut r, NodeIndex::new(k), true);
        }
        Some(r)
    }
}
struct Hashed;
impl Kind for Hashed {
    type K = PortIndex;
    type V = bool;
    type M = HashSet<PortIndex>;
    const NAME: &'static str = "HashSet";
    fn make(ctx: &mut Ctx) -> (Self::M, bool) {
        if ctx.chance(50) {
            (<Self::M as SecondaryMap<PortIndex, bool>>::new(), false)
        } else {
            (<Self::M as SecondaryMap<PortIndex, bool>>::with_capacity(ctx.draw(50)), false)
        }
    }
    fn val(v: usize) -> bool {
        v % 2 == 1
    }
    fn restart(m: &Self::M, c: Codec) -> Option<Self::M> {
        let r: Self::M = decode(c, &encode(c, m));
        check!(r == *m, "restart", "the restored set differs from the original");
        Some(r)
    }
}
struct Caller;
impl Kind for Caller {
    type K = NodeIndex;
    type V = u64;
    type M = OwnMap;
    const NAME: &'static str = "caller's map";
    fn make(_: &mut Ctx) -> (OwnMap, u64) {
        (OwnMap::default(), 0)
    }
    fn val(v: usize) -> u64 {
        v as u64
    }
}

fn p07(ctx: &mut Ctx) {
    ctx.max_steps = ctx.range(5, if ctx.thorough { 150 } else { 60 });
    match ctx.draw(8) {
        0 | 1 => run::<DenseNode>(ctx),
        2 => run::<DensePort>(ctx),
        3 => run::<DenseUsize>(ctx),
        4 => run::<Bits>(ctx),
        5 => run::<Hashed>(ctx),
        6 => run::<Caller>(ctx),
        _ => weights(ctx),
    }
}

fn universe(ctx: &mut Ctx) -> Vec<usize> {
    let mut keys: Vec<usize> = (0..ctx.range(2, 8)).collect();
    if ctx.chance(60) {
        keys.extend([31, 32, 63, 64, 65, 127, 128]);
    }
    if ctx.chance(20) {
        keys.extend([200, 1023, 1999]);
    }
    if ctx.draw(1500) == 1499 {
        keys.extend([65534, 65535, 65536, 70000]);
    }
    keys
}

fn compare<T: Kind>(m: &T::M, model: &Model<T::V>, keys: &[usize], last: &str) {
    let name = T::NAME;
    let probes = keys.iter().flat_map(|k| [*k, k + 1]).chain([5000, 100_000]);
    for k in probes {
        check_eq!(*m.get(T::key(k)), model.get(k), "get", "{name}: get({k}) after {last}");
    }
    check_eq!(m.default_value(), model.dflt, "default_value", "{name}: default_value() after {last}");
    let mut seen: BTreeMap<usize, T::V> = BTreeMap::new();
    let mut listed = 0;
    for (k, v) in m.iter() {
        listed += 1;
        check!(listed < 1_000_000, "iter", "{name}: endless iteration after {last}");
        check!(seen.insert(k.into(), v.clone()).is_none(), "iter", "{name}: key {k:?} listed twice after {last}");
    }
    for (k, v) in &model.map {
        check_eq!(seen.get(k), Some(v), "iter", "{name}: iteration at key {k} after {last}");
    }
    for (k, v) in &seen {
        check_eq!(*v, model.get(*k), "iter", "{name}: iteration at key {k} after {last}");
    }
}

fn run<T: Kind>(ctx: &mut Ctx) {
    ctx.op(T::NAME);
    let keys = universe(ctx);
    let (mut m, dflt) = T::make(ctx);
    let mut model = Model { map: BTreeMap::new(), dflt };
    let mut saved: Option<(T::M, BTreeMap<usize, T::V>)> = None;
    compare::<T>(&m, &model, &keys, "creation");
    while ctx.next_step() {
        let (a, b) = (*ctx.pick(&keys).unwrap(), *ctx.pick(&keys).unwrap());
        let v = T::val(ctx.draw(5));
        let k = T::key(a);
        let last = match ctx.draw(14) {
            0 | 1 | 2 => {
                m.set(k, v.clone());
                model.set(a, v);
                format!("set({a})")
            }
            3 => {
                let got = m.take(k);
                check_eq!(got, model.take(a), "take", "{}: take({a})", T::NAME);
                format!("take({a})")
            }
            4 => {
                m.remove(k);
                model.take(a);
                format!("remove({a})")
            }
            5 | 6 => {
                let to = (!ctx.chance(20)).then_some(b);
                SecondaryMap::rekey(&mut m, k, to.map(T::key));
                model.rekey(a, to);
                format!("rekey({a}, {to:?})")
            }
            7 | 8 => {
                SecondaryMap::swap(&mut m, k, T::key(b));
                model.swap(a, b);
                format!("swap({a}, {b})")
            }
            9 => {
                let to = ctx.draw(400);
                SecondaryMap::ensure_capacity(&mut m, to);
                let c = SecondaryMap::capacity(&m);
                check!(c >= to, "capacity", "{}: capacity() is {c} after ensure_capacity({to})", T::NAME);
                format!("ensure_capacity({to})")
            }
            10 => {
                // Writing to a clone must not affect the original.
                let mut c = m.clone();
                let original = ctx.chance(50);
                let other = if original { &mut c } else { &mut m };
                for k in &keys {
                    other.set(T::key(*k), T::val(k % 5 + 1));
                }
                if !original {
                    m = c;
                }
                "clone".to_string()
            }
            11 => {
                // Crash and restart, perhaps much later.
                let c = *ctx.pick(&CODECS).unwrap();
                if ctx.chance(50) || saved.is_none() {
                    match T::restart(&m, c) {
                        Some(r) => {
                            saved = Some((r, model.map.clone()));
                            format!("checkpoint({c:?})")
                        }
                        None => "no checkpoint".into(),
                    }
                } else {
                    ctx.fault("crash and restart from checkpoint");
                    let (r, map) = saved.clone().unwrap();
                    m = r;
                    model.map = map;
                    "crash, restart".into()
                }
            }
            _ => match T::own(&mut m, &mut model, ctx, &keys) {
                Some(s) => s,
                None => {
                    m.set(k, v.clone());
                    model.set(a, v);
                    format!("set({a})")
                }
            },
        };
        ctx.op(last.split('(').next().unwrap());
        ctx.log(|| format!("{}: {last}", T::NAME));
        compare::<T>(&m, &model, &keys, &last);
        ctx.state(fingerprint(&model.map.keys().collect::<Vec<_>>()));
    }
}

/// Weights: two maps that must not influence each other.
fn weights(ctx: &mut Ctx) {
    ctx.op("Weights");
    let keys = universe(ctx);
    let mut w: Weights<u64, String> = match ctx.draw(3) {
        0 => Weights::new(),
        1 => Weights::default(),
        _ => Weights::with_capacity(ctx.draw(20), ctx.draw(20)),
    };
    let mut mn = Model { map: BTreeMap::new(), dflt: 0u64 };
    let mut mp = Model { map: BTreeMap::new(), dflt: String::new() };
    let mut saved: Option<(Codec, Vec<u8>, BTreeMap<usize, u64>, BTreeMap<usize, String>)> = None;
    while ctx.next_step() {
        let a = *ctx.pick(&keys).unwrap();
        let (nx, px) = (NodeIndex::new(a), PortIndex::new(a));
        let v = ctx.draw(5);
        let last = match ctx.draw(7) {
            0 => {
                w[nx] = v as u64 * 7;
                mn.set(a, v as u64 * 7);
                format!("node {a} = {v}")
            }
            1 => {
                w[px] = "x".repeat(v);
                mp.set(a, "x".repeat(v));
                format!("port {a} = {v}")
            }
            2 => dense_own(&mut w.nodes, &mut mn, ctx, &keys, DenseNode::val).unwrap(),
            3 => dense_own(&mut w.ports, &mut mp, ctx, &keys, DensePort::val).unwrap(),
            4 => {
                w = w.clone();
                "clone".into()
            }
            5 => {
                let c = *ctx.pick(&CODECS).unwrap();
                saved = Some((c, encode(c, &w), mn.map.clone(), mp.map.clone()));
                "checkpoint".into()
            }
            _ => {
                if let Some((c, b, x, y)) = saved.clone() {
                    ctx.fault("crash and restart from checkpoint");
                    w = decode(c, &b);
                    mn.map = x;
                    mp.map = y;
                }
                "crash, restart".into()
            }
        };
        ctx.log(|| format!("Weights: {last}"));
        for k in &keys {
            check_eq!(w[NodeIndex::new(*k)], mn.get(*k), "weights", "weight of node {k} after {last}");
            check_eq!(w[PortIndex::new(*k)], mp.get(*k), "weights", "weight of port {k} after {last}");
        }
        compare::<DenseNode>(&w.nodes, &mn, &keys, &last);
        compare::<DensePort>(&w.ports, &mp, &keys, &last);
    }
}
