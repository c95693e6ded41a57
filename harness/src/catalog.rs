//! Picks a key type and hands the job every recipe that can take such keys.

use std::fmt::Debug;
use std::rc::Rc;

use frozen_collections_core::traits::len::Len;

use crate::keys::{Inst, Key, NewString, NewU32, Wide};
use crate::maps::{facade_specs, facade_specs_with_hasher, hashed_specs, hashed_specs_wide, integer_specs, length_specs, slice_specs, MapSpec};
use crate::rng::Rng;
use crate::run::Mon;
use crate::tracked::{TKey, TVal};
use crate::sets::{
    facade_set_specs, facade_set_specs_with_hasher, hashed_set_specs, hashed_set_specs_wide, integer_set_specs, length_set_specs, slice_set_specs, SetSpec,
};

/// Values that tell which entry they belong to.
pub trait MkVal: Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn mk(i: u64) -> Self;
    /// What tells this instance from equal ones.
    fn instance(&self) -> u64 {
        0
    }
    /// Whether the lives of such values are registered.
    fn registered() -> bool {
        false
    }
    /// A buffer the value owns.
    fn heap(&self) -> Option<*const u8> {
        None
    }
}
impl MkVal for u64 {
    const NAME: &'static str = "u64";
    fn mk(i: u64) -> u64 {
        i
    }
}
impl MkVal for () {
    const NAME: &'static str = "()";
    fn mk(_: u64) {}
}
impl MkVal for u8 {
    const NAME: &'static str = "u8";
    fn mk(i: u64) -> u8 {
        (i ^ (i >> 8)) as u8
    }
}
impl MkVal for String {
    const NAME: &'static str = "String";
    fn mk(i: u64) -> String {
        format!("v{i}")
    }
}
impl MkVal for [u64; 5] {
    const NAME: &'static str = "[u64; 5]";
    fn mk(i: u64) -> [u64; 5] {
        [i, !i, i << 7, 1, i ^ 0x5555]
    }
}
impl MkVal for Wide {
    const NAME: &'static str = "over-aligned";
    fn mk(i: u64) -> Wide {
        Wide(i as u32)
    }
}

pub trait MapJob {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]);
}

pub trait SetJob {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]);
}

macro_rules! choose {
    ($rng:expr, $($w:literal => $e:expr),* $(,)?) => {{
        let total = 0 $(+ $w)*;
        let mut r = $rng.below(total);
        loop {
            $(
                if r < $w { break $e; }
                #[allow(unused_assignments)]
                { r -= $w; }
            )*
        }
    }};
}

/// Facade maps over every kind of key.
pub fn facade_map<J: MapJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! all {
        ($k:ty, $v:ty) => {
            j.run::<$k, $v>(rng, mon, &facade_specs::<$k, $v>())
        };
    }
    // with a hasher of ours only
    macro_rules! one {
        ($k:ty, $v:ty) => {
            j.run::<$k, $v>(rng, mon, &facade_specs_with_hasher::<$k, $v>())
        };
    }
    choose!(rng,
        16 => all!(u32, u64),
        24 => all!(String, u64),
        2 => one!(u32, String),
        1 => one!(u32, ()),
        2 => one!(u32, [u64; 5]),
        2 => one!(String, u8),
        2 => one!(String, Wide),
        1 => one!(u8, u64),
        1 => one!(i64, u64),
        1 => one!(i128, u8),
        2 => one!(Inst, u64),
        1 => one!(Wide, u64),
        1 => one!(NewU32, u64),
        1 => one!(NewString, u64),
        1 => one!(Box<str>, u64),
        1 => one!(Vec<u8>, u64),
        1 => one!((u16, u8), u64),
        1 => one!(Option<u32>, u64),
        1 => one!(&'static str, u64),
        1 => one!((), u64),
    );
}

pub fn facade_set<J: SetJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! all {
        ($k:ty) => {
            j.run::<$k>(rng, mon, &facade_set_specs::<$k>())
        };
    }
    macro_rules! one {
        ($k:ty) => {
            j.run::<$k>(rng, mon, &facade_set_specs_with_hasher::<$k>())
        };
    }
    choose!(rng,
        16 => all!(u32),
        24 => all!(String),
        1 => one!(u8),
        1 => one!(i64),
        1 => one!(i128),
        2 => one!(Inst),
        1 => one!(Wide),
        1 => one!(NewU32),
        1 => one!(NewString),
        1 => one!(Box<str>),
        1 => one!(Vec<u8>),
        1 => one!((u16, u8)),
        1 => one!(Option<u32>),
        1 => one!(&'static str),
        1 => one!(()),
    );
}

/// A key with its own idea of length and slices.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Custom(pub Vec<u16>);

impl Len for Custom {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl frozen_collections_core::traits::slice_hash::SliceHash for Custom {
    fn hash<BH: std::hash::BuildHasher>(&self, bh: &BH, range: std::ops::Range<usize>) -> u64 {
        use std::hash::Hasher;
        let mut h = bh.build_hasher();
        for x in &self.0[range] {
            h.write(&x.to_le_bytes());
        }
        h.finish()
    }
}
impl Key for Custom {
    const NAME: &'static str = "custom sliceable";
    fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = String::gen(rng, n);
        (v.iter().map(|x| Custom(x.encode_utf16().collect())).collect(), s)
    }
    fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self> {
        let k: Vec<String> = keys.iter().map(|c| String::from_utf16_lossy(&c.0)).collect();
        String::probes(rng, &k, limit).iter().map(|x| Custom(x.encode_utf16().collect())).collect()
    }
}

impl Key for Rc<String> {
    const NAME: &'static str = "Rc<String>";
    fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = String::gen(rng, n);
        (v.into_iter().map(Rc::new).collect(), s)
    }
    fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self> {
        let k: Vec<String> = keys.iter().map(|c| (**c).clone()).collect();
        String::probes(rng, &k, limit).into_iter().map(Rc::new).collect()
    }
}

/// Specialised maps, each over the kinds of keys it is for.
pub fn special_map<J: MapJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! ints {
        ($k:ty, $v:ty) => {{
            j.run::<$k, $v>(rng, mon, &integer_specs::<$k, $v>())
        }};
    }
    choose!(rng,
        6 => {
            let mut s = integer_specs::<u32, u64>();
            s.extend(hashed_specs());
            j.run::<u32, u64>(rng, mon, &s)
        },
        1 => ints!(u8, u64), 1 => ints!(i8, u64), 1 => ints!(u16, u64), 1 => ints!(i16, u64), 1 => ints!(i32, u8),
        1 => ints!(u64, u64), 1 => ints!(i64, u64), 1 => ints!(u128, u64), 1 => ints!(i128, u64), 1 => ints!(usize, u64), 1 => ints!(isize, u64),
        12 => {
            let mut s = slice_specs::<String, u64>();
            s.extend(length_specs());
            s.extend(hashed_specs());
            s.extend(hashed_specs_wide());
            j.run::<String, u64>(rng, mon, &s)
        },
        2 => j.run::<Custom, u64>(rng, mon, &slice_specs::<Custom, u64>()),
        1 => j.run::<Custom, u64>(rng, mon, &length_specs::<Custom, u64>()),
        1 => j.run::<Rc<String>, u64>(rng, mon, &length_specs::<Rc<String>, u64>()),
        1 => j.run::<Vec<u8>, u64>(rng, mon, &length_specs::<Vec<u8>, u64>()),
        2 => j.run::<Inst, u64>(rng, mon, &hashed_specs::<Inst, u64>()),
        1 => j.run::<Wide, String>(rng, mon, &hashed_specs::<Wide, String>()),
        1 => j.run::<(), u64>(rng, mon, &hashed_specs::<(), u64>()),
    );
}

pub fn special_set<J: SetJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! ints {
        ($k:ty) => {{
            j.run::<$k>(rng, mon, &integer_set_specs::<$k>())
        }};
    }
    choose!(rng,
        6 => {
            let mut s = integer_set_specs::<u32>();
            s.extend(hashed_set_specs());
            j.run::<u32>(rng, mon, &s)
        },
        1 => ints!(u8), 1 => ints!(i8), 1 => ints!(u16), 1 => ints!(i16), 1 => ints!(i32),
        1 => ints!(u64), 1 => ints!(i64), 1 => ints!(u128), 1 => ints!(i128), 1 => ints!(usize), 1 => ints!(isize),
        12 => {
            let mut s = slice_set_specs::<String>();
            s.extend(length_set_specs());
            s.extend(hashed_set_specs());
            s.extend(hashed_set_specs_wide());
            j.run::<String>(rng, mon, &s)
        },
        2 => j.run::<Custom>(rng, mon, &slice_set_specs::<Custom>()),
        1 => j.run::<Custom>(rng, mon, &length_set_specs::<Custom>()),
        1 => j.run::<Rc<String>>(rng, mon, &length_set_specs::<Rc<String>>()),
        2 => j.run::<Inst>(rng, mon, &hashed_set_specs::<Inst>()),
        1 => j.run::<Wide>(rng, mon, &hashed_set_specs::<Wide>()),
        1 => j.run::<()>(rng, mon, &hashed_set_specs::<()>()),
    );
}

/// A few key types only, but every implementation: for jobs that don't depend on the key type.
pub fn every_map<J: MapJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    choose!(rng,
        5 => {
            let mut s = facade_specs::<u32, u64>();
            s.extend(facade_specs());
            s.extend(integer_specs());
            s.extend(hashed_specs());
            j.run::<u32, u64>(rng, mon, &s)
        },
        7 => {
            let mut s = facade_specs::<String, u64>();
            s.extend(facade_specs());
            s.extend(facade_specs());
            s.extend(slice_specs());
            s.extend(length_specs());
            s.extend(hashed_specs());
            j.run::<String, u64>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_specs::<String, Wide>();
            s.extend(slice_specs());
            s.extend(length_specs());
            j.run::<String, Wide>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_specs::<Inst, String>();
            s.extend(hashed_specs());
            j.run::<Inst, String>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_specs::<i64, String>();
            s.extend(integer_specs());
            j.run::<i64, String>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_specs::<i8, u64>();
            s.extend(integer_specs());
            j.run::<i8, u64>(rng, mon, &s)
        },
    );
}

pub fn every_set<J: SetJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    choose!(rng,
        5 => {
            let mut s = facade_set_specs::<u32>();
            s.extend(facade_set_specs());
            s.extend(integer_set_specs());
            s.extend(hashed_set_specs());
            j.run::<u32>(rng, mon, &s)
        },
        7 => {
            let mut s = facade_set_specs::<String>();
            s.extend(facade_set_specs());
            s.extend(facade_set_specs());
            s.extend(slice_set_specs());
            s.extend(length_set_specs());
            s.extend(hashed_set_specs());
            j.run::<String>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_set_specs::<Inst>();
            s.extend(hashed_set_specs());
            j.run::<Inst>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_set_specs::<i64>();
            s.extend(integer_set_specs());
            j.run::<i64>(rng, mon, &s)
        },
        1 => {
            let mut s = facade_set_specs::<i8>();
            s.extend(integer_set_specs());
            j.run::<i8>(rng, mon, &s)
        },
    );
}

/// Keys and values whose lives are registered, in every implementation.
pub fn tracked_map<J: MapJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    choose!(rng,
        6 => {
            let mut s = facade_specs::<TKey, TVal>();
            s.extend(slice_specs());
            s.extend(length_specs());
            s.extend(hashed_specs());
            j.run::<TKey, TVal>(rng, mon, &s)
        },
        3 => {
            let mut s = facade_specs::<String, TVal>();
            s.extend(facade_specs());
            s.extend(slice_specs());
            s.extend(length_specs());
            j.run::<String, TVal>(rng, mon, &s)
        },
        3 => {
            let mut s = facade_specs::<u32, TVal>();
            s.extend(integer_specs());
            j.run::<u32, TVal>(rng, mon, &s)
        },
        1 => j.run::<i64, TVal>(rng, mon, &integer_specs::<i64, TVal>()),
        1 => j.run::<i8, TVal>(rng, mon, &integer_specs::<i8, TVal>()),
    );
}

pub fn tracked_set<J: SetJob>(j: &J, rng: &mut Rng, mon: &mut Mon) {
    choose!(rng,
        6 => {
            let mut s = facade_set_specs::<TKey>();
            s.extend(slice_set_specs());
            s.extend(length_set_specs());
            s.extend(hashed_set_specs());
            j.run::<TKey>(rng, mon, &s)
        },
        3 => {
            let mut s = facade_set_specs::<String>();
            s.extend(facade_set_specs());
            s.extend(slice_set_specs());
            s.extend(length_set_specs());
            j.run::<String>(rng, mon, &s)
        },
        2 => {
            let mut s = facade_set_specs::<u32>();
            s.extend(integer_set_specs());
            j.run::<u32>(rng, mon, &s)
        },
        1 => j.run::<i8>(rng, mon, &integer_set_specs::<i8>()),
    );
}
