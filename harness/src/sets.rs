//! One object-safe face for every set of the library, and recipes for building each.

use std::any::Any;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};

use frozen_collections_core::facades::FrozenSet;
use frozen_collections_core::specialized_sets::{
    CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set,
};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};

use crate::hashers::Bh;
#[cfg(feature = "proto")]
use crate::iters::{protocol, It};
use crate::maps::{any_keys, at_most_u16, few_enough, at_most_u8, bounded, scan_size, IntSpecs, Unsized};
use crate::rng::Rng;
use crate::run::Mon;
use crate::with_array;

pub trait SetDyn<T> {
    fn any(&self) -> &dyn Any;
    fn d_get(&self, k: &T) -> Option<&T>;
    fn d_contains(&self, k: &T) -> bool;
    fn d_contains_trait(&self, k: &T) -> bool;
    fn d_len(&self) -> usize;
    fn d_is_empty(&self) -> bool;
    fn d_iter(&self) -> Vec<&T>;
    fn d_ref_iter(&self) -> Vec<&T>;
    fn d_trait_iter(&self) -> Vec<&T>;
    /// None if the set can't be consumed; otherwise what its consuming iterator yields, abandoned
    /// after `limit` items.
    fn d_consume(self: Box<Self>, limit: usize) -> Option<Vec<T>>;
    /// The same, but after `skip` items the iterator is cloned; yields the rest of both.
    fn d_consume_cloned(self: Box<Self>, skip: usize, limit: usize) -> Option<(Vec<T>, Vec<T>)>;
    /// Consumed by one of `WAYS` after `skip` items; yields what it handed out and is still held.
    fn d_consume_by(self: Box<Self>, skip: usize, way: usize) -> Option<Vec<T>>;
    fn d_clone(&self) -> Box<dyn SetDyn<T>>;
    /// false if the other set has another type
    fn d_clone_from(&mut self, other: &dyn SetDyn<T>) -> bool;
    fn d_eq(&self, other: &dyn SetDyn<T>) -> Option<(bool, bool)>;
    fn d_iter_protocol(&self, rng: &mut Rng, mon: &mut Mon);
    fn d_debug(&self) -> Option<String>;
}

pub const WAYS: usize = 16;

/// Uses up an iterator in one of many ways. What it handed out that is still held is returned.
fn consume_by<T, I: Iterator<Item = T> + Clone>(mut it: I, skip: usize, way: usize) -> Vec<T> {
    let mut held = Vec::new();
    for _ in 0..skip % 3 {
        held.extend(it.next());
    }
    let mut n = 0;
    match way {
        0 => {
            it.count();
        }
        1 => held.extend(it.last()),
        2 => {
            held.extend(it.nth(skip));
            held.extend(it);
        }
        3 => {
            held.extend(it.nth(skip));
            held.extend(it.nth(skip / 2));
        }
        4 => it.for_each(drop),
        5 => {
            held = it.fold(held, |mut v, x| {
                v.push(x);
                v
            });
        }
        6 => held.extend(it.skip(skip)),
        7 => held.extend(it.step_by(2 + skip % 3)),
        8 => {
            held.extend(it.find(|_| {
                n += 1;
                n > skip
            }));
            held.extend(it.next());
        }
        9 => {
            let c = it.clone();
            drop(it);
            c.count();
        }
        10 => {
            held.extend(it.clone().last());
            held.extend(it.nth(1));
        }
        11 => {
            // the caller's closure panics part of the way through
            let h = std::mem::take(&mut held);
            let r = crate::run::caught(|| {
                let mut h = h;
                it.for_each(|x| {
                    n += 1;
                    if n > skip {
                        std::panic::panic_any("given up");
                    }
                    h.push(x);
                });
                h
            });
            held.extend(r.unwrap_or_default());
        }
        12 => {
            let (a, b): (Vec<T>, Vec<T>) = it.partition(|_| {
                n += 1;
                n % 2 == 0
            });
            drop(a);
            held.extend(b);
        }
        13 => {
            let c: Option<Vec<T>> = it
                .map(|x| {
                    n += 1;
                    (n <= skip).then_some(x)
                })
                .collect();
            held.extend(c.into_iter().flatten());
        }
        14 => {
            held.extend(it.by_ref().take(skip));
            let _ = (it.size_hint(), it.next(), it.next());
            held.extend(it.last());
        }
        _ => {
            held.extend(it.by_ref().reduce(|a, b| {
                n += 1;
                if n % 2 == 0 {
                    a
                } else {
                    b
                }
            }));
            held.extend(it.next());
        }
    }
    held
}

macro_rules! set_dyn {
    ([$($g:tt)*], $t:ty, [$($w:tt)*], |$s:ident, $l:ident| $consume:expr, |$s4:ident, $k4:ident, $l4:ident| $consume2:expr, |$s5:ident, $k5:ident, $w5:ident| $consume3:expr, |$s2:ident, $r:ident, $m:ident| $cp:expr, |$s3:ident| $dbg:expr) => {
        impl<T, $($g)*> SetDyn<T> for $t
        where
            T: Clone + Eq + Hash + Debug + 'static,
            $($w)*
        {
            fn any(&self) -> &dyn Any { self }
            fn d_get(&self, k: &T) -> Option<&T> { self.get(k) }
            fn d_contains(&self, k: &T) -> bool { self.contains(k) }
            fn d_contains_trait(&self, k: &T) -> bool { Set::contains(self, k) }
            fn d_len(&self) -> usize { Len::len(self) }
            fn d_is_empty(&self) -> bool { Len::is_empty(self) }
            fn d_iter(&self) -> Vec<&T> { bounded(self.iter(), Len::len(self)) }
            fn d_ref_iter(&self) -> Vec<&T> { bounded(self, Len::len(self)) }
            fn d_trait_iter(&self) -> Vec<&T> { bounded(Set::iter(self), Len::len(self)) }
            fn d_consume(self: Box<Self>, $l: usize) -> Option<Vec<T>> { let $s = *self; $consume }
            fn d_consume_cloned(self: Box<Self>, $k4: usize, $l4: usize) -> Option<(Vec<T>, Vec<T>)> { let $s4 = *self; $consume2 }
            fn d_consume_by(self: Box<Self>, $k5: usize, $w5: usize) -> Option<Vec<T>> { let $s5 = *self; $consume3 }
            fn d_clone(&self) -> Box<dyn SetDyn<T>> { Box::new(self.clone()) }
            fn d_clone_from(&mut self, other: &dyn SetDyn<T>) -> bool {
                other.any().downcast_ref::<Self>().map(|o| self.clone_from(o)).is_some()
            }
            fn d_eq(&self, other: &dyn SetDyn<T>) -> Option<(bool, bool)> {
                let o = other.any().downcast_ref::<Self>()?;
                Some((self == o, self != o))
            }
            fn d_iter_protocol(&self, rng: &mut Rng, mon: &mut Mon) {
                #[cfg(not(feature = "proto"))]
                let _ = (rng, mon);
                #[cfg(feature = "proto")]
                {
                let full: Vec<&T> = bounded(self.iter(), Len::len(self));
                protocol(&|| It::exact(self.iter()), &full, rng, mon, "set items");
                protocol(&|| It::exact((&self).into_iter()), &full, rng, mon, "set items by reference");
                protocol(&|| It::exact(Set::iter(self)), &full, rng, mon, "set items through the Set trait");
                let ($s2, $r, $m) = (self, rng, mon);
                $cp
                }
            }
            fn d_debug(&self) -> Option<String> { let $s3 = self; $dbg }
        }
    };
}

macro_rules! consuming_set_dyn {
    ([$($g:tt)*], $t:ty, [$($w:tt)*]) => {
        set_dyn!([$($g)*], $t, [$($w)*],
            |s, l| Some(s.into_iter().take(l).collect()),
            |s, k, l| {
                let mut a = s.into_iter();
                for _ in 0..k {
                    a.next();
                }
                let b = a.clone();
                let left = a.take(l).collect();
                Some((left, b.take(l).collect()))
            },
            |s, k, w| Some(consume_by(s.into_iter(), k, w)),
            |s, r, m| {
                let full: Vec<T> = bounded(s.iter(), Len::len(s)).into_iter().cloned().collect();
                protocol(&|| It::exact(s.clone().into_iter()), &full, r, m, "consumed set items");
            },
            |s| Some(format!("{s:?}"))
        );
    };
}

set_dyn!([BH], FrozenSet<T, BH>, [BH: BuildHasher + Clone + 'static], |_s, _l| None, |_s, _k, _l| None, |_s, _k, _w| None, |_s, _r, _m| {}, |_s| None);
consuming_set_dyn!([S, BH], CommonSet<T, S, BH>, [S: PrimInt + Unsigned + 'static, BH: BuildHasher + Default + Clone + 'static]);
consuming_set_dyn!([S], IntegerSet<T, S>, [T: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned + 'static]);
consuming_set_dyn!([], IntegerRangeSet<T>, [T: PrimInt]);
consuming_set_dyn!([S, BH], LeftSliceSet<T, S, BH>, [T: SliceHash + Len, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Default + Clone + 'static]);
consuming_set_dyn!([S, BH], RightSliceSet<T, S, BH>, [T: SliceHash + Len, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Default + Clone + 'static]);
consuming_set_dyn!([S], LengthSet<T, S>, [T: Len, S: PrimInt + Unsigned + 'static]);
consuming_set_dyn!([], ScanningSet<T>, []);

pub struct SetSpec<T> {
    pub name: &'static str,
    pub facade: bool,
    pub fits: fn(&[T]) -> bool,
    pub build: fn(Vec<T>, &mut Rng, Bh) -> Box<dyn SetDyn<T>>,
}
impl<T> Clone for SetSpec<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for SetSpec<T> {}

pub fn frozen_set<T: Hash + Eq + Clone + Debug + 'static>(e: Vec<T>, rng: &mut Rng, bh: Bh) -> FrozenSet<T, Bh> {
    match rng.below(6) {
        0 | 1 => FrozenSet::from_vec_with_hasher(e, bh),
        2 => FrozenSet::from_iter_with_hasher(e, bh),
        3 => FrozenSet::from_iter_with_hasher(Unsized(e.into_iter()), bh),
        _ => {
            if e.is_empty() && rng.chance(2) {
                FrozenSet::<T, Bh>::default()
            } else {
                with_array!(e, |a| FrozenSet::with_hasher(a, bh), FrozenSet::from_vec_with_hasher(e, bh))
            }
        }
    }
}

pub fn facade_set_specs<T: Hash + Eq + Clone + Debug + 'static>() -> Vec<SetSpec<T>> {
    let mut v = facade_set_specs_with_hasher();
    v.push(
        SetSpec {
            name: "FrozenSet (RandomState)",
            facade: true,
            fits: any_keys,
            build: |e, rng, _| match rng.below(5) {
                0 => Box::new(FrozenSet::from_vec(e)),
                1 => Box::new(e.into_iter().collect::<FrozenSet<T>>()),
                2 => Box::new(Unsized(e.into_iter()).collect::<FrozenSet<T>>()),
                3 => Box::new(FrozenSet::from_vec_with_hasher(e, RandomState::new())),
                _ => {
                    if e.is_empty() && rng.chance(2) {
                        Box::new(FrozenSet::<T>::default())
                    } else {
                        with_array!(e, |a| Box::new(FrozenSet::from(a)), Box::new(FrozenSet::from_vec(e)))
                    }
                }
            },
        },
    );
    v
}

pub fn facade_set_specs_with_hasher<T: Hash + Eq + Clone + Debug + 'static>() -> Vec<SetSpec<T>> {
    vec![SetSpec { name: "FrozenSet", facade: true, fits: any_keys, build: |e, rng, bh| Box::new(frozen_set(e, rng, bh)) }]
}

pub fn common_set<T: Hash + Eq + Clone + Debug + 'static, S: PrimInt + Unsigned + 'static>(e: Vec<T>, rng: &mut Rng, bh: Bh) -> Box<dyn SetDyn<T>> {
    match rng.below(7) {
        0 | 1 => Box::new(CommonSet::<T, S, Bh>::from_vec_with_hasher(e, bh)),
        2 => Box::new(CommonSet::<T, S, Bh>::from_iter_with_hasher(Unsized(e.into_iter()), bh)),
        3 => with_array!(e, |a| Box::new(CommonSet::<T, S, Bh>::with_hasher(a, bh)), Box::new(CommonSet::<T, S, Bh>::from_vec_with_hasher(e, bh))),
        4 => Box::new(CommonSet::<T, S>::from_vec(e)),
        5 => Box::new(Unsized(e.into_iter()).collect::<CommonSet<T, S>>()),
        _ => with_array!(e, |a| Box::new(CommonSet::<T, S>::from(a)), Box::new(CommonSet::<T, S>::from_vec(e))),
    }
}

pub fn scanning_set<T: Hash + Eq + Clone + Debug + 'static>(e: Vec<T>, rng: &mut Rng, _: Bh) -> Box<dyn SetDyn<T>> {
    match rng.below(3) {
        0 => Box::new(ScanningSet::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<ScanningSet<T>>()),
        _ => with_array!(e, |a| Box::new(ScanningSet::from(a)), Box::new(ScanningSet::from_vec(e))),
    }
}

pub fn integer_set<T: PrimInt + AsPrimitive<u64> + Hash + Debug + 'static, S: PrimInt + Unsigned + 'static>(e: Vec<T>, rng: &mut Rng, _: Bh) -> Box<dyn SetDyn<T>> {
    match rng.below(3) {
        0 => Box::new(IntegerSet::<T, S>::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<IntegerSet<T, S>>()),
        _ => with_array!(e, |a| Box::new(IntegerSet::<T, S>::from(a)), Box::new(IntegerSet::<T, S>::from_vec(e))),
    }
}

pub fn range_set<T: PrimInt + Hash + Debug + 'static>(e: Vec<T>, rng: &mut Rng, _: Bh) -> Box<dyn SetDyn<T>> {
    match rng.below(3) {
        0 => Box::new(IntegerRangeSet::<T>::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<IntegerRangeSet<T>>()),
        _ => with_array!(e, |a| Box::new(IntegerRangeSet::<T>::from(a)), Box::new(IntegerRangeSet::<T>::from_vec(e))),
    }
}

macro_rules! slice_set_builder {
    ($f:ident, $t:ident) => {
        pub fn $f<T: SliceHash + Len + Hash + Eq + Clone + Debug + 'static, S: PrimInt + Unsigned + 'static>(e: Vec<T>, rng: &mut Rng, bh: Bh) -> Box<dyn SetDyn<T>> {
            let r = crate::maps::range_for(rng, e.iter());
            match rng.below(6) {
                0 | 1 => Box::new($t::<T, S, Bh>::from_vec_with_hasher(e, r, bh)),
                2 => Box::new($t::<T, S, Bh>::from_iter_with_hasher(Unsized(e.into_iter()), r, bh)),
                3 => with_array!(e, |a| Box::new($t::<T, S, Bh>::with_hasher(a, r, bh)), Box::new($t::<T, S>::from_vec(e, r))),
                4 => Box::new($t::<T, S>::from_iter(e, r)),
                _ => with_array!(e, |a| Box::new($t::<T, S>::from(a, r)), Box::new($t::<T, S>::from_vec(e, r))),
            }
        }
    };
}
slice_set_builder!(left_set, LeftSliceSet);
slice_set_builder!(right_set, RightSliceSet);

pub fn length_set<T: Len + Hash + Eq + Clone + Debug + 'static, S: PrimInt + Unsigned + 'static>(e: Vec<T>, rng: &mut Rng, _: Bh) -> Box<dyn SetDyn<T>> {
    match rng.below(3) {
        0 => Box::new(LengthSet::<T, S>::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<LengthSet<T, S>>()),
        _ => with_array!(e, |a| Box::new(LengthSet::<T, S>::from(a)), Box::new(LengthSet::<T, S>::from_vec(e))),
    }
}

pub fn hashed_set_specs<T: Hash + Eq + Clone + Debug + 'static>() -> Vec<SetSpec<T>> {
    vec![
        SetSpec { name: "CommonSet<u8>", facade: false, fits: at_most_u8, build: common_set::<T, u8> },
        SetSpec { name: "CommonSet<u16>", facade: false, fits: at_most_u16, build: common_set::<T, u16> },
        SetSpec { name: "ScanningSet", facade: false, fits: scan_size, build: scanning_set::<T> },
    ]
}

pub fn hashed_set_specs_wide<T: Hash + Eq + Clone + Debug + 'static>() -> Vec<SetSpec<T>> {
    vec![
        SetSpec { name: "CommonSet<u32>", facade: false, fits: any_keys, build: common_set::<T, u32> },
        SetSpec { name: "CommonSet<usize>", facade: false, fits: any_keys, build: common_set::<T, usize> },
    ]
}

pub fn integer_set_specs<T: PrimInt + AsPrimitive<u64> + Hash + Debug + IntSpecs + 'static>() -> Vec<SetSpec<T>> {
    vec![
        SetSpec { name: "IntegerSet<u8>", facade: false, fits: at_most_u8, build: integer_set::<T, u8> },
        SetSpec { name: "IntegerSet<u16>", facade: false, fits: at_most_u16, build: integer_set::<T, u16> },
        SetSpec { name: "IntegerSet<usize>", facade: false, fits: any_keys, build: integer_set::<T, usize> },
        SetSpec { name: "IntegerRangeSet", facade: false, fits: T::contiguous, build: range_set::<T> },
    ]
}

pub fn slice_set_specs<T: SliceHash + Len + Hash + Eq + Clone + Debug + 'static>() -> Vec<SetSpec<T>> {
    vec![
        SetSpec { name: "LeftSliceSet<u8>", facade: false, fits: at_most_u8, build: left_set::<T, u8> },
        SetSpec { name: "LeftSliceSet<usize>", facade: false, fits: any_keys, build: left_set::<T, usize> },
        SetSpec { name: "RightSliceSet<u8>", facade: false, fits: at_most_u8, build: right_set::<T, u8> },
        SetSpec { name: "RightSliceSet<usize>", facade: false, fits: any_keys, build: right_set::<T, usize> },
    ]
}

pub fn length_set_specs<T: Len + Hash + Eq + Clone + Debug + 'static>() -> Vec<SetSpec<T>> {
    vec![
        SetSpec { name: "LengthSet<u8>", facade: false, fits: at_most_u8, build: length_set::<T, u8> },
        SetSpec { name: "LengthSet<u16>", facade: false, fits: few_enough, build: length_set::<T, u16> },
    ]
}
