//! The iterator contract, checked at many points of consumption. Iterators are erased behind one
//! type that forwards every call to the real one, so that the checks are compiled once per item type.

use std::fmt::{self, Debug, Formatter};
use std::iter::FusedIterator;

use crate::maps::bounded;
use crate::rng::Rng;
use crate::run::Mon;
use crate::vassert;

trait ItDyn<'a, T> {
    fn i_next(&mut self) -> Option<T>;
    fn i_hint(&self) -> (usize, Option<usize>);
    fn i_len(&self) -> usize;
    fn i_nth(&mut self, n: usize) -> Option<T>;
    fn i_count(self: Box<Self>) -> usize;
    fn i_last(self: Box<Self>) -> Option<T>;
    fn i_fold(self: Box<Self>, f: &mut dyn FnMut(T));
    fn i_for_each(self: Box<Self>, f: &mut dyn FnMut(T));
    fn i_all(&mut self, f: &mut dyn FnMut(T) -> bool) -> bool;
    fn i_any(&mut self, f: &mut dyn FnMut(T) -> bool) -> bool;
    fn i_find(&mut self, f: &mut dyn FnMut(&T) -> bool) -> Option<T>;
    fn i_position(&mut self, f: &mut dyn FnMut(T) -> bool) -> Option<usize>;
    fn i_collect(self: Box<Self>) -> Vec<T>;
    fn i_debug(&self, f: &mut Formatter<'_>) -> fmt::Result;
    fn i_clone(&self) -> Box<dyn ItDyn<'a, T> + 'a>;
}

struct Node<I> {
    it: I,
    len: Option<fn(&I) -> usize>,
}

impl<'a, T, I: Iterator<Item = T> + Clone + Debug + 'a> ItDyn<'a, T> for Node<I> {
    fn i_next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn i_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn i_len(&self) -> usize {
        (self.len.unwrap())(&self.it)
    }
    fn i_nth(&mut self, n: usize) -> Option<T> {
        self.it.nth(n)
    }
    fn i_count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn i_last(self: Box<Self>) -> Option<T> {
        self.it.last()
    }
    fn i_fold(self: Box<Self>, f: &mut dyn FnMut(T)) {
        self.it.fold((), |(), x| f(x));
    }
    fn i_for_each(self: Box<Self>, f: &mut dyn FnMut(T)) {
        self.it.for_each(f);
    }
    fn i_all(&mut self, f: &mut dyn FnMut(T) -> bool) -> bool {
        self.it.all(f)
    }
    fn i_any(&mut self, f: &mut dyn FnMut(T) -> bool) -> bool {
        self.it.any(f)
    }
    fn i_find(&mut self, f: &mut dyn FnMut(&T) -> bool) -> Option<T> {
        self.it.find(f)
    }
    fn i_position(&mut self, f: &mut dyn FnMut(T) -> bool) -> Option<usize> {
        self.it.position(f)
    }
    fn i_collect(self: Box<Self>) -> Vec<T> {
        self.it.collect()
    }
    fn i_debug(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.it.fmt(f)
    }
    fn i_clone(&self) -> Box<dyn ItDyn<'a, T> + 'a> {
        Box::new(Node { it: self.it.clone(), len: self.len })
    }
}

/// Any iterator of the library.
pub struct It<'a, T>(Box<dyn ItDyn<'a, T> + 'a>);

impl<'a, T> It<'a, T> {
    pub fn new<I: Iterator<Item = T> + FusedIterator + Clone + Debug + 'a>(it: I) -> Self {
        It(Box::new(Node { it, len: None }))
    }
    pub fn exact<I: Iterator<Item = T> + ExactSizeIterator + FusedIterator + Clone + Debug + 'a>(it: I) -> Self {
        It(Box::new(Node { it, len: Some(|i| i.len()) }))
    }
    pub fn len(&self) -> usize {
        self.0.i_len()
    }
}
impl<T> Clone for It<'_, T> {
    fn clone(&self) -> Self {
        It(self.0.i_clone())
    }
}
impl<T> Debug for It<'_, T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.0.i_debug(f)
    }
}
impl<T> Iterator for It<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.i_next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.i_hint()
    }
    fn count(self) -> usize {
        self.0.i_count()
    }
    fn last(self) -> Option<T> {
        self.0.i_last()
    }
    fn nth(&mut self, n: usize) -> Option<T> {
        self.0.i_nth(n)
    }
    fn fold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = Some(init);
        self.0.i_fold(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
        acc.unwrap()
    }
    fn for_each<F: FnMut(T)>(self, mut f: F) {
        self.0.i_for_each(&mut f);
    }
}

/// A history of calls on one iterator, each checked against the items that remain.
fn history<T: PartialEq + Debug + Clone>(mut it: It<'_, T>, rest: &[T], exact: bool, rng: &mut Rng, what: &str) -> u64 {
    let n = rest.len();
    let mut at = 0;
    let mut calls = String::new();
    let steps = rng.range(3, 14);
    for _ in 0..steps {
        let left = n - at;
        let (lo, hi) = it.size_hint();
        if exact {
            vassert!((lo, hi) == (left, Some(left)), "{what}: size_hint is {:?} after {calls}, {left} remain", (lo, hi));
            vassert!(it.len() == left, "{what}: len is {} after {calls}, {left} remain", it.len());
        } else {
            vassert!(lo <= left && hi.map_or(true, |h| h >= left), "{what}: size_hint is {:?} after {calls}, {left} remain", (lo, hi));
        }
        // how far to go: mostly a little, sometimes to the end or beyond
        let far = match rng.below(8) {
            0..=4 => rng.below(3),
            5 => rng.below(left + 1),
            6 => left,
            _ => *rng.pick(&[left + 1, left + 2, left + 100, usize::MAX, usize::MAX - 1, usize::MAX - n, usize::MAX / 2]),
        };
        let want = if far < left { Some(&rest[at + far]) } else { None };
        let mut seen = 0;
        let (call, got, ok) = match rng.below(8) {
            0 | 1 => (format!("nth({far})"), it.0.i_nth(far), true),
            2 => {
                it = it.clone();
                calls.push_str("clone ");
                continue;
            }
            3 => {
                let mut last = None;
                let r = it.0.i_all(&mut |x| {
                    seen += 1;
                    if seen > far {
                        last = Some(x);
                    }
                    seen <= far
                });
                (format!("all({far})"), last, r == want.is_none() && seen == far.saturating_add(1).min(left))
            }
            4 => {
                let mut last = None;
                let r = it.0.i_any(&mut |x| {
                    seen += 1;
                    if seen > far {
                        last = Some(x);
                    }
                    seen > far
                });
                (format!("any({far})"), last, r == want.is_some() && seen == far.saturating_add(1).min(left))
            }
            5 => {
                let r = it.0.i_find(&mut |_| {
                    seen += 1;
                    seen > far
                });
                (format!("find({far})"), r, seen == far.saturating_add(1).min(left))
            }
            6 => {
                let mut last = None;
                let r = it.0.i_position(&mut |x| {
                    seen += 1;
                    if seen > far {
                        last = Some(x);
                    }
                    seen > far
                });
                (format!("position({far})"), last, r == want.map(|_| far))
            }
            _ => {
                if left == 0 || far == 0 {
                    at += usize::from(left > 0);
                    let x = it.next();
                    calls.push_str("next ");
                    vassert!(x.as_ref() == if left > 0 { Some(&rest[at - 1]) } else { None }, "{what}: after {calls}it yields {x:?}, item {} of {rest:?} is due", at - 1);
                } else {
                    calls.push_str("last ");
                    let l = it.clone().0.i_last();
                    vassert!(l.as_ref() == rest.last(), "{what}: after {calls}the last item is {l:?}");
                }
                continue;
            }
        };
        calls.push_str(&call);
        calls.push(' ');
        vassert!(got.as_ref() == want && ok, "{what}: after {calls}the item is {got:?}, expected {want:?} ({seen} seen)");
        at += far.saturating_add(1).min(left);
    }
    let left = n - at;
    let r = if rng.chance(2) {
        it.0.i_collect()
    } else if rng.chance(2) {
        let c = it.clone().count();
        vassert!(c == left, "{what}: count is {c} after {calls}, {left} remain");
        bounded(it, left)
    } else {
        it.fold(Vec::new(), |mut v, x| {
            v.push(x);
            v
        })
    };
    vassert!(r == rest[at..], "{what}: after {calls}{r:?} remain, expected {:?}", &rest[at..]);
    steps as u64
}

/// Points of partial consumption worth looking at.
pub fn cuts(rng: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 9 {
        return (0..=n).collect();
    }
    let mut c = vec![0, 1, 2, n / 2, n - 2, n - 1, n];
    for _ in 0..3 {
        c.push(rng.below(n + 1));
    }
    c.sort_unstable();
    c.dedup();
    c
}

/// The contract of an exact-size, cloneable, fused iterator, at many points of consumption.
/// `full` is what a fresh iterator yields.
pub fn protocol<'a, T: PartialEq + Debug + Clone>(make: &dyn Fn() -> It<'a, T>, full: &[T], rng: &mut Rng, mon: &mut Mon, what: &str) {
    exact(make, full, rng, mon, what);
    let n = full.len();
    for k in cuts(rng, n) {
        let mut it = make();
        for _ in 0..k {
            it.next();
        }
        let rest = &full[k..];
        let dbg = format!("{it:?}");
        vassert!(dbg == format!("{rest:?}"), "{what}: Debug of an iterator advanced by {k} of {n} shows {dbg}, remaining {rest:?}");
        let dbg = format!("{it:#?}");
        vassert!(dbg == format!("{rest:#?}"), "{what}: alternate Debug of an iterator advanced by {k} of {n} shows {dbg}");
        clone_protocol(&it, rest, rng, what, k);
        vassert!(it.len() == rest.len(), "{what}: len changed by cloning or printing");
        let calls = history(it, rest, true, rng, what);
        mon.ev("iterator calls in random histories", calls);
        mon.ev("iterator states with Debug and clones checked", 1);
    }
}

/// Checks on clones of an iterator with the given remaining items; the iterator itself isn't advanced.
fn clone_protocol<T: PartialEq + Debug + Clone>(it: &It<'_, T>, rest: &[T], rng: &mut Rng, what: &str, k: usize) {
    let r = rest.len();
    let c = it.clone().count();
    vassert!(c == r, "{what}: count is {c} after {k} items, {r} remain");
    let f = it.clone().fold(Vec::new(), |mut v, x| {
        if v.len() <= r + 3 {
            v.push(x);
        }
        v
    });
    vassert!(f == rest, "{what}: fold after {k} items visits {f:?}, remaining {rest:?}");
    let mut a = it.clone();
    let mut b = Vec::new();
    // the clone and a clone of the clone, stepped alternately
    let mut a2 = None;
    let at = rng.below(r + 1);
    for i in 0..=r {
        if i == at {
            a2 = Some(a.clone());
        }
        match a.next() {
            Some(x) => b.push(x),
            None => break,
        }
    }
    vassert!(b == rest, "{what}: a clone made after {k} items yields {b:?}, remaining {rest:?}");
    if let Some(a2) = a2 {
        let b2 = bounded(a2, r - at);
        vassert!(b2 == rest[at..], "{what}: a clone of a clone yields {b2:?}");
    }
    for i in 0..3 {
        vassert!(a.next().is_none(), "{what}: yields an item after its end (call {i})");
    }
    if r > 0 {
        let j = rng.below(r);
        let mut c = it.clone();
        let x = c.nth(j);
        vassert!(x.as_ref() == Some(&rest[j]), "{what}: nth({j}) after {k} items is {x:?}, expected {:?}", rest[j]);
        let v = bounded(c, r);
        vassert!(v == rest[j + 1..], "{what}: after nth({j}) {v:?} remain, expected {:?}", &rest[j + 1..]);
    }
    let mut c = it.clone();
    let x = c.nth(r);
    vassert!(x.is_none(), "{what}: nth beyond the end is {x:?}");
    vassert!(c.next().is_none(), "{what}: yields an item after nth beyond the end");
    vassert!(c.size_hint().0 == 0, "{what}: size_hint after nth beyond the end is {:?}", c.size_hint());
    let l = it.clone().last();
    vassert!(l.as_ref() == rest.last(), "{what}: last is {l:?}, expected {:?}", rest.last());
    let mut n = 0;
    it.clone().for_each(|_| n += 1);
    vassert!(n == r, "{what}: for_each visits {n} items, {r} remain");
    let s = bounded(it.clone().step_by(2), r / 2 + 1);
    vassert!(s.len() == r.div_ceil(2) && s.iter().enumerate().all(|(i, x)| *x == rest[2 * i]), "{what}: step_by(2) yields {s:?} of {rest:?}");
}

fn exact<'a, T: PartialEq + Debug + Clone>(make: &dyn Fn() -> It<'a, T>, full: &[T], rng: &mut Rng, mon: &mut Mon, what: &str) {
    let n = full.len();
    let mut it = make();
    for k in 0..n {
        if n < 50 || k % (n / 16) == 0 || k + 2 >= n {
            let h = it.size_hint();
            vassert!(h == (n - k, Some(n - k)), "{what}: size_hint after {k} of {n} items is {h:?}");
            vassert!(it.len() == n - k, "{what}: len after {k} of {n} items is {}", it.len());
        }
        let x = it.next();
        vassert!(x.as_ref() == Some(&full[k]), "{what}: item {k} is {x:?}, expected {:?}", full[k]);
    }
    for i in 0..4 {
        vassert!(it.size_hint() == (0, Some(0)) && it.len() == 0, "{what}: size_hint at the end is {:?}", it.size_hint());
        vassert!(it.next().is_none(), "{what}: yields more than {n} items (call {i} at the end)");
    }
    vassert!(it.count() == 0, "{what}: count at the end isn't 0");
    for k in cuts(rng, n) {
        let mut it = make();
        for _ in 0..k {
            it.next();
        }
        let c = it.count();
        vassert!(c == n - k, "{what}: count after {k} of {n} items is {c}");
        let mut it = make();
        let t = it.by_ref().take(k).count();
        vassert!(t == k && it.len() == n - k, "{what}: taking {k} of {n} items left {}", it.len());
        let v = bounded(it, n - k);
        vassert!(v == full[k..], "{what}: after taking {k} items the rest is {v:?}");
        mon.ev("iterator states checked", 1);
    }
}

/// The contract of an iterator that only bounds what it will yield, `cap` items at most.
pub fn inexact<'a, T: PartialEq + Debug + Clone>(make: &dyn Fn() -> It<'a, T>, cap: usize, rng: &mut Rng, mon: &mut Mon, what: &str) {
    let full = bounded(make(), cap);
    let n = full.len();
    vassert!(n <= cap, "{what}: yields more than {cap} items");
    vassert!(bounded(make(), cap) == full, "{what}: two fresh iterators differ");
    let mut it = make();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        let rest = n - k;
        vassert!(lo <= rest, "{what}: size_hint promises at least {lo} items after {k} of {n}, {rest} remain");
        vassert!(hi.map_or(true, |h| h >= rest), "{what}: size_hint promises at most {hi:?} items after {k} of {n}, {rest} remain");
        let x = it.next();
        vassert!(x.as_ref() == full.get(k), "{what}: item {k} is {x:?}, expected {:?}", full.get(k));
    }
    for _ in 0..3 {
        vassert!(it.next().is_none(), "{what}: yields an item after its end");
        vassert!(it.size_hint().0 == 0, "{what}: size_hint at the end is {:?}", it.size_hint());
    }
    for k in cuts(rng, n) {
        let mut it = make();
        for _ in 0..k {
            it.next();
        }
        let rest = &full[k..];
        let d = format!("{it:?}");
        vassert!(d == format!("{rest:?}"), "{what}: Debug after {k} of {n} items shows {d}, remaining {rest:?}");
        clone_protocol(&it, rest, rng, what, k);
        let calls = history(it.clone(), rest, false, rng, what);
        mon.ev("iterator calls in random histories", calls);
        let v = bounded(it, rest.len());
        vassert!(v == rest, "{what}: printing or cloning after {k} items changed what remains: {v:?}, expected {rest:?}");
        mon.ev("states of set operation iterators checked", 1);
    }
}
