//! All pairs of set implementations, the standard ones included.

use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;

use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set,
};

use crate::hashers::Bh;
use crate::keys::Key;
use crate::maps::{slice_range, IntSpecs};
use crate::rng::Rng;
use crate::sets::frozen_set;

/// What the library's own sets offer beyond the trait.
pub trait TestSet<T>: Set<T> + Sized + 'static {
    /// |, &, -, ^ with the other set
    fn ops<B: Set<T>>(&self, _b: &B) -> Option<[Vec<T>; 4]> {
        None
    }
    /// == and !=
    fn eq_any<B: Set<T>>(&self, _b: &B) -> Option<(bool, bool)> {
        None
    }
}

macro_rules! lib_set {
    ([$($g:tt)*] $item:ty, $t:ty, $eq:expr, [$($w:tt)*]) => {
        impl<$($g)*> TestSet<$item> for $t where $($w)* {
            fn ops<B: Set<$item>>(&self, b: &B) -> Option<[Vec<$item>; 4]> {
                Some([(self | b).into_iter().collect(), (self & b).into_iter().collect(), (self - b).into_iter().collect(), (self ^ b).into_iter().collect()])
            }
            fn eq_any<B: Set<$item>>(&self, b: &B) -> Option<(bool, bool)> {
                let f: fn(&Self, &B) -> Option<(bool, bool)> = $eq;
                f(self, b)
            }
        }
    };
}

lib_set!([T] T, FrozenSet<T, Bh>, |_, _| None, [T: Key]);
lib_set!([T] T, CommonSet<T, u16, Bh>, |a, b| Some((a == b, a != b)), [T: Key]);
lib_set!([T] T, ScanningSet<T>, |a, b| Some((a == b, a != b)), [T: Key]);
lib_set!([] u32, IntegerSet<u32, u16>, |a, b| Some((a == b, a != b)), []);
lib_set!([] u32, IntegerRangeSet<u32>, |a, b| Some((a == b, a != b)), []);
lib_set!([] String, LeftSliceSet<String, u16, Bh>, |a, b| Some((a == b, a != b)), []);
lib_set!([] String, RightSliceSet<String, u16, Bh>, |a, b| Some((a == b, a != b)), []);
lib_set!([] String, LengthSet<String, u16>, |a, b| Some((a == b, a != b)), []);
impl<T: Key> TestSet<T> for HashSet<T, Bh> {}
impl<T: Key + Ord> TestSet<T> for BTreeSet<T> {}

pub trait PairJob<T: Key> {
    fn run<A, B>(&mut self, na: &'static str, a: &A, nb: &'static str, b: &B)
    where
        A: TestSet<T>,
        B: TestSet<T>,
        for<'x> <A as Set<T>>::Iterator<'x>: Clone,
        for<'x> <B as Set<T>>::Iterator<'x>: Clone;
}

pub enum IntSet {
    Frozen(FrozenSet<u32, Bh>),
    Common(CommonSet<u32, u16, Bh>),
    Scanning(ScanningSet<u32>),
    Integer(IntegerSet<u32, u16>),
    Range(IntegerRangeSet<u32>),
    Hash(HashSet<u32, Bh>),
    BTree(BTreeSet<u32>),
}

impl IntSet {
    /// A set holding the values, of an implementation that can.
    pub fn build(v: Vec<u32>, rng: &mut Rng, bh: Bh) -> IntSet {
        match rng.below(7) {
            0 => IntSet::Frozen(frozen_set(v, rng, bh)),
            1 => IntSet::Common(CommonSet::from_vec_with_hasher(v, bh)),
            2 => IntSet::Scanning(ScanningSet::from_vec(v)),
            3 => IntSet::Integer(IntegerSet::from_vec(v)),
            4 => {
                if u32::contiguous(&v) {
                    IntSet::Range(IntegerRangeSet::from_vec(v))
                } else {
                    IntSet::Frozen(frozen_set(v, rng, bh))
                }
            }
            5 => {
                let mut s = HashSet::with_hasher(bh);
                s.extend(v);
                IntSet::Hash(s)
            }
            _ => IntSet::BTree(v.into_iter().collect()),
        }
    }
}

pub enum StrSet {
    Frozen(FrozenSet<String, Bh>),
    Common(CommonSet<String, u16, Bh>),
    Scanning(ScanningSet<String>),
    Left(LeftSliceSet<String, u16, Bh>),
    Right(RightSliceSet<String, u16, Bh>),
    Length(LengthSet<String, u16>),
    Hash(HashSet<String, Bh>),
    BTree(BTreeSet<String>),
}

impl StrSet {
    pub fn build(v: Vec<String>, rng: &mut Rng, bh: Bh) -> StrSet {
        match rng.below(9) {
            0 | 1 => StrSet::Frozen(frozen_set(v, rng, bh)),
            2 => StrSet::Common(CommonSet::from_vec_with_hasher(v, bh)),
            3 => StrSet::Scanning(ScanningSet::from_vec(v)),
            4 => StrSet::Left(LeftSliceSet::from_vec_with_hasher(v, slice_range(rng), bh)),
            5 => StrSet::Right(RightSliceSet::from_vec_with_hasher(v, slice_range(rng), bh)),
            6 => StrSet::Length(LengthSet::from_vec(v)),
            7 => {
                let mut s = HashSet::with_hasher(bh);
                s.extend(v);
                StrSet::Hash(s)
            }
            _ => StrSet::BTree(v.into_iter().collect()),
        }
    }
}

macro_rules! with_int {
    ($x:expr, |$n:ident, $s:ident| $e:expr) => {
        match $x {
            IntSet::Frozen($s) => { let $n = "FrozenSet"; $e }
            IntSet::Common($s) => { let $n = "CommonSet"; $e }
            IntSet::Scanning($s) => { let $n = "ScanningSet"; $e }
            IntSet::Integer($s) => { let $n = "IntegerSet"; $e }
            IntSet::Range($s) => { let $n = "IntegerRangeSet"; $e }
            IntSet::Hash($s) => { let $n = "HashSet"; $e }
            IntSet::BTree($s) => { let $n = "BTreeSet"; $e }
        }
    };
}
macro_rules! with_str {
    ($x:expr, |$n:ident, $s:ident| $e:expr) => {
        match $x {
            StrSet::Frozen($s) => { let $n = "FrozenSet"; $e }
            StrSet::Common($s) => { let $n = "CommonSet"; $e }
            StrSet::Scanning($s) => { let $n = "ScanningSet"; $e }
            StrSet::Left($s) => { let $n = "LeftSliceSet"; $e }
            StrSet::Right($s) => { let $n = "RightSliceSet"; $e }
            StrSet::Length($s) => { let $n = "LengthSet"; $e }
            StrSet::Hash($s) => { let $n = "HashSet"; $e }
            StrSet::BTree($s) => { let $n = "BTreeSet"; $e }
        }
    };
}

pub fn int_pair<J: PairJob<u32>>(a: &IntSet, b: &IntSet, j: &mut J) {
    with_int!(a, |na, x| with_int!(b, |nb, y| j.run(na, x, nb, y)));
}
pub fn str_pair<J: PairJob<String>>(a: &StrSet, b: &StrSet, j: &mut J) {
    with_str!(a, |na, x| with_str!(b, |nb, y| j.run(na, x, nb, y)));
}

/// Two collections of elements that relate to each other in one of many ways.
pub fn element_pairs<T: Key>(rng: &mut Rng, cap: usize) -> (Vec<T>, Vec<T>, &'static str) {
    let n = match rng.below(8) {
        0 => rng.below(4),
        1..=4 => rng.range(2, 20),
        5 | 6 => rng.range(10, 80),
        _ => rng.range(100, 400),
    }
    .min(cap);
    let (u, _) = T::gen(rng, n);
    let n = u.len();
    let sub = |rng: &mut Rng, v: &[T], k: usize| -> Vec<T> {
        let mut v = v.to_vec();
        rng.shuffle(&mut v);
        v.truncate(k);
        v
    };
    let (mut a, mut b, how) = match rng.below(11) {
        0 => (u.clone(), u.clone(), "equal"),
        1 => (u.clone(), sub(rng, &u, n - n.min(1)), "one more"),
        2 => {
            let k = rng.below(n + 1);
            (u.clone(), sub(rng, &u, k), "superset")
        }
        3 => {
            let k = rng.below(n + 1);
            (sub(rng, &u, k), u.clone(), "subset")
        }
        4 => (u[..n / 2].to_vec(), u[n / 2..].to_vec(), "disjoint"),
        5 => {
            let k = rng.below(n + 1);
            (u[..k].to_vec(), u[k..].to_vec(), "disjoint, sizes differ")
        }
        6 => (u.clone(), Vec::new(), "second empty"),
        7 => (Vec::new(), u.clone(), "first empty"),
        8 => {
            let (i, j) = (n / 3, n - n / 3);
            (u[..j].to_vec(), u[i..].to_vec(), "overlapping")
        }
        9 => {
            // same size, one element differs
            let mut b = u.clone();
            if n > 1 {
                b.remove(0);
                (u[..n - 1].to_vec(), b, "one element swapped")
            } else {
                (u.clone(), b, "equal")
            }
        }
        _ => {
            let (i, j) = (rng.below(n + 1), rng.below(n + 1));
            (sub(rng, &u, i), sub(rng, &u, j), "random")
        }
    };
    if rng.chance(2) {
        rng.shuffle(&mut a);
    }
    if rng.chance(2) {
        rng.shuffle(&mut b);
    }
    (a, b, how)
}

pub fn list<T: Debug + Ord + Clone>(v: &HashSet<T>) -> String {
    let mut x: Vec<T> = v.iter().cloned().collect();
    x.sort();
    crate::checks::short(&x)
}
