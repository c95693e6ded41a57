//! One object-safe face for every map of the library, and recipes for building each.

use std::any::Any;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, RandomState};

use frozen_collections_core::facades::FrozenMap;
use frozen_collections_core::specialized_maps::{
    CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap,
};
use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;
use num_traits::{AsPrimitive, PrimInt, Unsigned};

use crate::hashers::Bh;
#[cfg(feature = "proto")]
use crate::iters::{protocol, It};
use crate::rng::Rng;
use crate::run::Mon;
use crate::tracked::{tick, Call};

pub trait Val: Clone + PartialEq + Debug + 'static {}
impl<T: Clone + PartialEq + Debug + 'static> Val for T {}

pub trait MapDyn<K, V> {
    fn any(&self) -> &dyn Any;
    fn d_get(&self, k: &K) -> Option<&V>;
    fn d_get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn d_get_kv(&self, k: &K) -> Option<(&K, &V)>;
    fn d_contains(&self, k: &K) -> bool;
    fn d_len(&self) -> usize;
    fn d_is_empty(&self) -> bool;
    fn d_iter(&self) -> Vec<(&K, &V)>;
    fn d_ref_iter(&self) -> Vec<(&K, &V)>;
    fn d_keys(&self) -> Vec<&K>;
    fn d_values(&self) -> Vec<&V>;
    fn d_index(&self, k: K) -> &V;
    fn d_index_mut(&mut self, k: K) -> &mut V;
    /// None if the number of keys isn't supported.
    fn d_many<'a>(&'a mut self, k: &[&K]) -> Option<Option<Vec<&'a mut V>>>;
    fn d_debug(&self) -> (String, String);
    fn d_clone(&self) -> Box<dyn MapDyn<K, V>>;
    /// false if the other map has another type
    fn d_clone_from(&mut self, other: &dyn MapDyn<K, V>) -> bool;
    /// None if the other map has another type; (==, !=) otherwise.
    fn d_eq(&self, other: &dyn MapDyn<K, V>) -> Option<(bool, bool)>;
    fn d_iter_protocol(&self, rng: &mut Rng, mon: &mut Mon);
}

pub const MANY: [usize; 6] = [0, 1, 2, 3, 5, 12];

#[cfg(feature = "many")]
macro_rules! many_body {
    ($self:ident, $k:ident, $K:ty, $($n:literal)*) => {
        match $k.len() {
            $( $n => {
                let a: [&$K; $n] = $k.try_into().unwrap();
                Some($self.get_many_mut(a).map(Vec::from))
            } )*
            _ => None,
        }
    };
}

macro_rules! map_dyn {
    ([$($g:tt)*], $t:ty, [$($w:tt)*]) => {
        impl<K, V, $($g)*> MapDyn<K, V> for $t
        where
            K: Clone + Eq + Debug + 'static,
            V: Val,
            $($w)*
        {
            fn any(&self) -> &dyn Any { self }
            fn d_get(&self, k: &K) -> Option<&V> { self.get(k) }
            fn d_get_mut(&mut self, k: &K) -> Option<&mut V> { self.get_mut(k) }
            fn d_get_kv(&self, k: &K) -> Option<(&K, &V)> { self.get_key_value(k) }
            fn d_contains(&self, k: &K) -> bool { self.contains_key(k) }
            fn d_len(&self) -> usize { self.len() }
            fn d_is_empty(&self) -> bool { self.is_empty() }
            fn d_iter(&self) -> Vec<(&K, &V)> { bounded(self.iter(), self.len()) }
            fn d_ref_iter(&self) -> Vec<(&K, &V)> { bounded(self, self.len()) }
            fn d_keys(&self) -> Vec<&K> { bounded(self.keys(), self.len()) }
            fn d_values(&self) -> Vec<&V> { bounded(self.values(), self.len()) }
            fn d_index(&self, k: K) -> &V { &self[k] }
            fn d_index_mut(&mut self, k: K) -> &mut V { &mut self[k] }
            fn d_many<'a>(&'a mut self, k: &[&K]) -> Option<Option<Vec<&'a mut V>>> {
                #[cfg(not(feature = "many"))]
                {
                    let _ = k;
                    None
                }
                #[cfg(feature = "many")]
                {
                    many_body!(self, k, K, 0 1 2 3 5 12)
                }
            }
            fn d_debug(&self) -> (String, String) { (format!("{self:?}"), format!("{self:#?}")) }
            fn d_clone(&self) -> Box<dyn MapDyn<K, V>> { Box::new(self.clone()) }
            fn d_clone_from(&mut self, other: &dyn MapDyn<K, V>) -> bool {
                other.any().downcast_ref::<Self>().map(|o| self.clone_from(o)).is_some()
            }
            fn d_eq(&self, other: &dyn MapDyn<K, V>) -> Option<(bool, bool)> {
                let o = other.any().downcast_ref::<Self>()?;
                Some((self == o, self != o))
            }
            fn d_iter_protocol(&self, rng: &mut Rng, mon: &mut Mon) {
                #[cfg(not(feature = "proto"))]
                let _ = (rng, mon);
                #[cfg(feature = "proto")]
                {
                let full: Vec<(&K, &V)> = bounded(self.iter(), self.len());
                protocol(&|| It::exact(self.iter()), &full, rng, mon, "entries");
                protocol(&|| It::exact((&self).into_iter()), &full, rng, mon, "entries by reference");
                let k: Vec<&K> = full.iter().map(|x| x.0).collect();
                protocol(&|| It::exact(self.keys()), &k, rng, mon, "keys");
                let v: Vec<&V> = full.iter().map(|x| x.1).collect();
                protocol(&|| It::exact(self.values()), &v, rng, mon, "values");
                }
            }
        }
    };
}

map_dyn!([BH], FrozenMap<K, V, BH>, [K: Hash, BH: BuildHasher + Clone + 'static]);
map_dyn!([S, BH], CommonMap<K, V, S, BH>, [K: Hash, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + 'static]);
map_dyn!([S], IntegerMap<K, V, S>, [K: PrimInt + AsPrimitive<u64>, S: PrimInt + Unsigned + 'static]);
map_dyn!([], IntegerRangeMap<K, V>, [K: PrimInt]);
map_dyn!([S, BH], LeftSliceMap<K, V, S, BH>, [K: SliceHash + Len, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + 'static]);
map_dyn!([S, BH], RightSliceMap<K, V, S, BH>, [K: SliceHash + Len, S: PrimInt + Unsigned + 'static, BH: BuildHasher + Clone + 'static]);
map_dyn!([S], LengthMap<K, V, S>, [K: Len, S: PrimInt + Unsigned + 'static]);
map_dyn!([], ScanningMap<K, V>, []);

/// Collects an iterator that should yield `len` items; stops not far beyond if it yields more.
pub fn bounded<I: IntoIterator>(it: I, len: usize) -> Vec<I::Item> {
    let mut v = Vec::with_capacity(len);
    let mut it = it.into_iter();
    while v.len() <= len + 3 {
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
    }
    v
}

pub struct MapSpec<K, V> {
    pub name: &'static str,
    pub facade: bool,
    /// whether the keys meet the documented preconditions of the map
    pub fits: fn(&[K]) -> bool,
    pub build: fn(Vec<(K, V)>, &mut Rng, Bh) -> Box<dyn MapDyn<K, V>>,
}

impl<K, V> Clone for MapSpec<K, V> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K, V> Copy for MapSpec<K, V> {}

/// Runs an expression with an array made of the vector, if its length is one of a few.
#[macro_export]
macro_rules! with_array {
    ($v:ident, |$a:ident| $e:expr, $or:expr) => {
        match $v.len() {
            0 => { let $a: [_; 0] = $v.try_into().ok().unwrap(); $e }
            3 => { let $a: [_; 3] = $v.try_into().ok().unwrap(); $e }
            5 => { let $a: [_; 5] = $v.try_into().ok().unwrap(); $e }
            _ => $or,
        }
    };
}

pub fn any_keys<K>(_: &[K]) -> bool {
    true
}
pub fn at_most_u8<K>(k: &[K]) -> bool {
    k.len() <= 255
}
pub fn at_most_u16<K>(k: &[K]) -> bool {
    k.len() <= 65535
}
/// Many keys of a length would take forever.
pub fn few_enough<K>(k: &[K]) -> bool {
    k.len() <= crate::keys::LARGE
}
pub fn scan_size<K>(k: &[K]) -> bool {
    k.len() <= 300
}

/// An iterator without a useful size hint.
pub struct Unsized<I>(pub I);
impl<I: Iterator> Iterator for Unsized<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick(Call::Produce);
        self.0.next()
    }
}

pub fn facade_specs<K: Hash + Eq + Clone + Debug + 'static, V: Val>() -> Vec<MapSpec<K, V>> {
    let mut v = facade_specs_with_hasher();
    v.push(
        MapSpec {
            name: "FrozenMap (RandomState)",
            facade: true,
            fits: any_keys,
            build: |e, rng, _| match rng.below(5) {
                0 => Box::new(FrozenMap::from_vec(e)),
                1 => Box::new(e.into_iter().collect::<FrozenMap<K, V>>()),
                2 => Box::new(Unsized(e.into_iter()).collect::<FrozenMap<K, V>>()),
                3 => Box::new(FrozenMap::from_vec_with_hasher(e, RandomState::new())),
                _ => {
                    if e.is_empty() && rng.chance(2) {
                        Box::new(FrozenMap::<K, V>::default())
                    } else {
                        with_array!(e, |a| Box::new(FrozenMap::from(a)), Box::new(FrozenMap::from_vec(e)))
                    }
                }
            },
        }
    );
    v
}

pub fn facade_specs_with_hasher<K: Hash + Eq + Clone + Debug + 'static, V: Val>() -> Vec<MapSpec<K, V>> {
    vec![
        MapSpec {
            name: "FrozenMap",
            facade: true,
            fits: any_keys,
            build: |e, rng, bh| match rng.below(6) {
                0 | 1 => Box::new(FrozenMap::from_vec_with_hasher(e, bh)),
                2 => Box::new(FrozenMap::from_iter_with_hasher(e, bh)),
                3 => Box::new(FrozenMap::from_iter_with_hasher(Unsized(e.into_iter()), bh)),
                _ => {
                    if e.is_empty() && rng.chance(2) {
                        Box::new(FrozenMap::<K, V, Bh>::default())
                    } else {
                        with_array!(e, |a| Box::new(FrozenMap::with_hasher(a, bh)), Box::new(FrozenMap::from_vec_with_hasher(e, bh)))
                    }
                }
            },
        },
    ]
}

pub fn common_map<K: Hash + Eq + Clone + Debug + 'static, V: Val, S: PrimInt + Unsigned + 'static>(e: Vec<(K, V)>, rng: &mut Rng, bh: Bh) -> Box<dyn MapDyn<K, V>> {
    match rng.below(7) {
        0 | 1 => Box::new(CommonMap::<K, V, S, Bh>::from_vec_with_hasher(e, bh)),
        2 => Box::new(CommonMap::<K, V, S, Bh>::from_iter_with_hasher(Unsized(e.into_iter()), bh)),
        3 => with_array!(e, |a| Box::new(CommonMap::<K, V, S, Bh>::with_hasher(a, bh)), Box::new(CommonMap::<K, V, S, Bh>::from_vec_with_hasher(e, bh))),
        4 => Box::new(CommonMap::<K, V, S>::from_vec(e)),
        5 => Box::new(Unsized(e.into_iter()).collect::<CommonMap<K, V, S>>()),
        _ => with_array!(e, |a| Box::new(CommonMap::<K, V, S>::from(a)), Box::new(CommonMap::<K, V, S>::from_vec(e))),
    }
}

pub fn scanning_map<K: Eq + Clone + Debug + 'static, V: Val>(e: Vec<(K, V)>, rng: &mut Rng, _: Bh) -> Box<dyn MapDyn<K, V>> {
    match rng.below(3) {
        0 => Box::new(ScanningMap::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<ScanningMap<K, V>>()),
        _ => with_array!(e, |a| Box::new(ScanningMap::from(a)), Box::new(ScanningMap::from_vec(e))),
    }
}

pub fn integer_map<K, V: Val, S: PrimInt + Unsigned + 'static>(e: Vec<(K, V)>, rng: &mut Rng, _: Bh) -> Box<dyn MapDyn<K, V>>
where
    K: PrimInt + AsPrimitive<u64> + Eq + Clone + Debug + 'static,
{
    match rng.below(3) {
        0 => Box::new(IntegerMap::<K, V, S>::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<IntegerMap<K, V, S>>()),
        _ => with_array!(e, |a| Box::new(IntegerMap::<K, V, S>::from(a)), Box::new(IntegerMap::<K, V, S>::from_vec(e))),
    }
}

pub fn range_map<K, V: Val>(e: Vec<(K, V)>, rng: &mut Rng, _: Bh) -> Box<dyn MapDyn<K, V>>
where
    K: PrimInt + Eq + Clone + Debug + 'static,
{
    match rng.below(3) {
        0 => Box::new(IntegerRangeMap::<K, V>::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<IntegerRangeMap<K, V>>()),
        _ => with_array!(e, |a| Box::new(IntegerRangeMap::<K, V>::from(a)), Box::new(IntegerRangeMap::<K, V>::from_vec(e))),
    }
}

/// A slice range; also ones longer than some or all of the keys, and empty ones.
pub fn slice_range(rng: &mut Rng) -> std::ops::Range<usize> {
    let start = match rng.below(4) {
        0 | 1 => 0,
        2 => rng.below(4),
        _ => rng.below(30),
    };
    let len = match rng.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => rng.below(16),
        _ => rng.below(40),
    };
    start..start + len
}

/// A range that goes with some keys: often one that lies within the longer ones, wherever that is.
pub fn range_for<'a, K: Len + 'a>(rng: &mut Rng, keys: impl Iterator<Item = &'a K> + Clone) -> std::ops::Range<usize> {
    let longest = keys.clone().map(Len::len).max().unwrap_or(0);
    if longest < 24 || keys.count() > 2000 || rng.chance(2) {
        return slice_range(rng);
    }
    let end = longest.saturating_sub(rng.below(8)).min(longest - rng.below(2));
    let start = end.saturating_sub(*rng.pick(&[1, 1, 2, 4, 8, 64, 300]));
    if rng.chance(2) {
        // from the other side
        longest - end..longest - start
    } else {
        start..end
    }
}

pub fn left_map<K: SliceHash + Len + Eq + Clone + Debug + 'static, V: Val, S: PrimInt + Unsigned + 'static>(e: Vec<(K, V)>, rng: &mut Rng, bh: Bh) -> Box<dyn MapDyn<K, V>> {
    let r = range_for(rng, e.iter().map(|x| &x.0));
    match rng.below(6) {
        0 | 1 => Box::new(LeftSliceMap::<K, V, S, Bh>::from_vec_with_hasher(e, r, bh)),
        2 => Box::new(LeftSliceMap::<K, V, S, Bh>::from_iter_with_hasher(Unsized(e.into_iter()), r, bh)),
        3 => with_array!(e, |a| Box::new(LeftSliceMap::<K, V, S, Bh>::with_hasher(a, r, bh)), Box::new(LeftSliceMap::<K, V, S>::from_vec(e, r))),
        4 => Box::new(LeftSliceMap::<K, V, S>::from_iter(e, r)),
        _ => with_array!(e, |a| Box::new(LeftSliceMap::<K, V, S>::from(a, r)), Box::new(LeftSliceMap::<K, V, S>::from_vec(e, r))),
    }
}

pub fn right_map<K: SliceHash + Len + Eq + Clone + Debug + 'static, V: Val, S: PrimInt + Unsigned + 'static>(e: Vec<(K, V)>, rng: &mut Rng, bh: Bh) -> Box<dyn MapDyn<K, V>> {
    let r = range_for(rng, e.iter().map(|x| &x.0));
    match rng.below(6) {
        0 | 1 => Box::new(RightSliceMap::<K, V, S, Bh>::from_vec_with_hasher(e, r, bh)),
        2 => Box::new(RightSliceMap::<K, V, S, Bh>::from_iter_with_hasher(Unsized(e.into_iter()), r, bh)),
        3 => with_array!(e, |a| Box::new(RightSliceMap::<K, V, S, Bh>::with_hasher(a, r, bh)), Box::new(RightSliceMap::<K, V, S>::from_vec(e, r))),
        4 => Box::new(RightSliceMap::<K, V, S>::from_iter(e, r)),
        _ => with_array!(e, |a| Box::new(RightSliceMap::<K, V, S>::from(a, r)), Box::new(RightSliceMap::<K, V, S>::from_vec(e, r))),
    }
}

pub fn length_map<K: Len + Eq + Clone + Debug + 'static, V: Val, S: PrimInt + Unsigned + 'static>(e: Vec<(K, V)>, _: &mut Rng, _: Bh) -> Box<dyn MapDyn<K, V>> {
    Box::new(LengthMap::<K, V, S>::from_vec(e))
}

pub fn length_map_u8<K: Len + Eq + Clone + Debug + 'static, V: Val>(e: Vec<(K, V)>, rng: &mut Rng, _: Bh) -> Box<dyn MapDyn<K, V>> {
    match rng.below(3) {
        0 => Box::new(LengthMap::<K, V, u8>::from_vec(e)),
        1 => Box::new(Unsized(e.into_iter()).collect::<LengthMap<K, V>>()),
        _ => with_array!(e, |a| Box::new(LengthMap::<K, V>::from(a)), Box::new(LengthMap::<K, V>::from_vec(e))),
    }
}

/// Every specialised map that any hashable key can use.
pub fn hashed_specs<K: Hash + Eq + Clone + Debug + 'static, V: Val>() -> Vec<MapSpec<K, V>> {
    vec![
        MapSpec { name: "CommonMap<u8>", facade: false, fits: at_most_u8, build: common_map::<K, V, u8> },
        MapSpec { name: "CommonMap<u16>", facade: false, fits: at_most_u16, build: common_map::<K, V, u16> },
        MapSpec { name: "ScanningMap", facade: false, fits: scan_size, build: scanning_map::<K, V> },
    ]
}

/// More capacity types.
pub fn hashed_specs_wide<K: Hash + Eq + Clone + Debug + 'static, V: Val>() -> Vec<MapSpec<K, V>> {
    vec![
        MapSpec { name: "CommonMap<u32>", facade: false, fits: any_keys, build: common_map::<K, V, u32> },
        MapSpec { name: "CommonMap<u64>", facade: false, fits: any_keys, build: common_map::<K, V, u64> },
        MapSpec { name: "CommonMap<usize>", facade: false, fits: any_keys, build: common_map::<K, V, usize> },
    ]
}

pub trait IntSpecs: Sized {
    fn contiguous(keys: &[Self]) -> bool;
}

macro_rules! int_specs {
    ($($t:ident)*) => { $(
        impl IntSpecs for $t {
            fn contiguous(keys: &[Self]) -> bool {
                let mut k = keys.to_vec();
                k.sort_unstable();
                k.windows(2).all(|w| w[0].checked_add(1) == Some(w[1]))
            }
        }
    )* };
}
int_specs!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);

pub fn integer_specs<K, V: Val>() -> Vec<MapSpec<K, V>>
where
    K: PrimInt + AsPrimitive<u64> + Hash + Debug + IntSpecs + 'static,
{
    vec![
        MapSpec { name: "IntegerMap<u8>", facade: false, fits: at_most_u8, build: integer_map::<K, V, u8> },
        MapSpec { name: "IntegerMap<u16>", facade: false, fits: at_most_u16, build: integer_map::<K, V, u16> },
        MapSpec { name: "IntegerMap<usize>", facade: false, fits: any_keys, build: integer_map::<K, V, usize> },
        MapSpec { name: "IntegerRangeMap", facade: false, fits: K::contiguous, build: range_map::<K, V> },
    ]
}

pub fn slice_specs<K: SliceHash + Len + Eq + Clone + Debug + 'static, V: Val>() -> Vec<MapSpec<K, V>> {
    vec![
        MapSpec { name: "LeftSliceMap<u8>", facade: false, fits: at_most_u8, build: left_map::<K, V, u8> },
        MapSpec { name: "LeftSliceMap<usize>", facade: false, fits: any_keys, build: left_map::<K, V, usize> },
        MapSpec { name: "RightSliceMap<u8>", facade: false, fits: at_most_u8, build: right_map::<K, V, u8> },
        MapSpec { name: "RightSliceMap<usize>", facade: false, fits: any_keys, build: right_map::<K, V, usize> },
    ]
}

pub fn length_specs<K: Len + Eq + Clone + Debug + 'static, V: Val>() -> Vec<MapSpec<K, V>> {
    vec![
        MapSpec { name: "LengthMap<u8>", facade: false, fits: at_most_u8, build: length_map_u8::<K, V> },
        MapSpec { name: "LengthMap<u16>", facade: false, fits: few_enough, build: length_map::<K, V, u16> },
    ]
}
