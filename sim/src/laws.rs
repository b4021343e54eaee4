//! Readers that consume lazy iterators in any way their traits allow, one
//! operation at a time, so that they can be interleaved by a schedule.

use crate::engine::*;
use crate::{check, check_eq};
use std::collections::VecDeque;
use std::fmt::Debug;

pub trait Step<'a> {
    /// Performs one operation. Returns false when the reader is done.
    fn step(&mut self, ctx: &mut Ctx) -> bool;
    fn fork(&self) -> Option<Box<dyn Step<'a> + 'a>>;
    fn name(&self) -> &str;
}

#[derive(Clone)]
pub struct Reader<I: Iterator> {
    it: I,
    want: VecDeque<I::Item>,
    name: String,
    extra: usize,
    clone: Option<fn(&I) -> I>,
    back: Option<fn(&mut I) -> Option<I::Item>>,
    nth_back: Option<fn(&mut I, usize) -> Option<I::Item>>,
    rev: Option<fn(I) -> Vec<I::Item>>,
    len: Option<fn(&I) -> usize>,
    fused: bool,
}
impl<I: Iterator> Reader<I>
where
    I::Item: PartialEq + Debug + Clone,
{
    pub fn new(name: impl Into<String>, it: I, want: impl IntoIterator<Item = I::Item>) -> Self {
        Reader { it, want: want.into_iter().collect(), name: name.into(), extra: 0, clone: None, back: None, nth_back: None, rev: None, len: None, fused: true }
    }
    pub fn cl(mut self) -> Self
    where
        I: Clone,
    {
        self.clone = Some(|i| i.clone());
        self
    }
    pub fn de(mut self) -> Self
    where
        I: DoubleEndedIterator,
    {
        self.back = Some(|i| i.next_back());
        self.nth_back = Some(|i, k| i.nth_back(k));
        self.rev = Some(|i| i.rev().collect());
        self
    }
    pub fn ex(mut self) -> Self
    where
        I: ExactSizeIterator,
    {
        self.len = Some(|i| i.len());
        self
    }
    /// The hints of an iterator with `left` items to come.
    fn hints(&self, ctx_what: &str) {
        let left = self.want.len();
        let (lo, hi) = self.it.size_hint();
        let n = &self.name;
        check!(lo <= left && hi.is_none_or(|h| h >= left), "size_hint", "{n}: size_hint is {:?} {ctx_what} with {left} items left", (lo, hi));
        if let Some(f) = self.len {
            check_eq!(f(&self.it), left, "len", "{n}: len {ctx_what}");
            check_eq!((lo, hi), (left, Some(left)), "size_hint", "{n}: size_hint of an exact iterator {ctx_what}");
        }
    }
}
impl<'a, I: Iterator + 'a> Step<'a> for Reader<I>
where
    I::Item: PartialEq + Debug + Clone + 'a,
{
    fn name(&self) -> &str {
        &self.name
    }
    fn fork(&self) -> Option<Box<dyn Step<'a> + 'a>> {
        let f = self.clone?;
        Some(Box::new(Reader {
            it: f(&self.it),
            want: self.want.clone(),
            name: format!("{}'", self.name),
            extra: self.extra,
            clone: self.clone,
            back: self.back,
            nth_back: self.nth_back,
            rev: self.rev,
            len: self.len,
            fused: self.fused,
        }))
    }
    fn step(&mut self, ctx: &mut Ctx) -> bool {
        let name = self.name.clone();
        let op = ctx.weighted(&[8, 6, 2, 2, 2, 2]);
        match op {
            1 if self.back.is_some() => {
                let got = self.back.unwrap()(&mut self.it);
                let want = self.want.pop_back();
                check_eq!(got, want, "next_back", "{name}: next_back");
            }
            2 => {
                let k = ctx.draw(3);
                let got = self.it.nth(k);
                self.want.drain(..k.min(self.want.len()));
                let want = self.want.pop_front();
                check_eq!(got, want, "nth", "{name}: nth({k})");
            }
            3 if self.nth_back.is_some() => {
                let k = ctx.draw(3);
                let got = self.nth_back.unwrap()(&mut self.it, k);
                self.want.truncate(self.want.len().saturating_sub(k));
                let want = self.want.pop_back();
                check_eq!(got, want, "nth_back", "{name}: nth_back({k})");
            }
            4 if self.clone.is_some() => {
                let c = self.clone.unwrap()(&self.it);
                let all: Vec<I::Item> = self.want.iter().cloned().collect();
                match ctx.draw(5) {
                    0 => check_eq!(c.count(), all.len(), "count", "{name}: count"),
                    1 => check_eq!(c.last(), all.last().cloned(), "last", "{name}: last"),
                    2 => check_eq!(c.fold(vec![], |mut v, x| { v.push(x); v }), all, "fold", "{name}: fold"),
                    3 if self.rev.is_some() => {
                        let mut r = self.rev.unwrap()(c);
                        r.reverse();
                        check_eq!(r, all, "rev", "{name}: reversed items left");
                    }
                    _ => check_eq!(c.collect::<Vec<_>>(), all, "collect", "{name}: items left"),
                }
            }
            5 => {
                let k = ctx.draw(4);
                let got: Vec<I::Item> = self.it.by_ref().take(k).collect();
                let want: Vec<I::Item> = self.want.drain(..k.min(self.want.len())).collect();
                check_eq!(got, want, "take", "{name}: take({k})");
            }
            _ => {
                let got = self.it.next();
                let want = self.want.pop_front();
                check_eq!(got, want, "next", "{name}: next");
            }
        }
        self.hints(["after next", "after next_back", "after nth", "after nth_back", "after a clone", "after take"][op]);
        if self.want.is_empty() {
            self.extra += 1;
        }
        self.extra < 3
    }
}

/// Interleaves several readers, with clones and abandonment.
pub fn interleave<'a>(ctx: &mut Ctx, mut readers: Vec<Box<dyn Step<'a> + 'a>>, budget: usize) {
    let mut left = budget;
    while !readers.is_empty() && left > 0 {
        left -= 1;
        let k = ctx.draw(readers.len());
        match ctx.draw(16) {
            14 if readers.len() < 8 => {
                if let Some(f) = readers[k].fork() {
                    ctx.probe("iterator cloned mid-way");
                    readers.push(f);
                }
            }
            15 => {
                ctx.probe("iterator abandoned");
                readers.swap_remove(k);
            }
            _ => {
                let name = readers[k].name().to_string();
                ctx.log(|| format!("  reader {name}"));
                if !readers[k].step(ctx) {
                    readers.swap_remove(k);
                }
            }
        }
    }
}
