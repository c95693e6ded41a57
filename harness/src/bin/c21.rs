//! C21: hashing over a slice sees exactly the slice.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::ops::Range;

use frozen_collections_core::specialized_maps::{LeftSliceMap, RightSliceMap};
use frozen_collections_core::specialized_sets::{LeftSliceSet, RightSliceSet};
use frozen_collections_core::traits::slice_hash::SliceHash;
use vh::hashers::Bh;
use vh::keys::{gen_strings, probe_strings};
use vh::rng::Rng;
use vh::run::{caught, run_cases, Mon};
use vh::vassert;

thread_local! {
    /// Every string of bytes ever hashed has a number of its own.
    static IDS: RefCell<HashMap<Vec<u8>, u64>> = RefCell::new(HashMap::new());
    static BUILT: Cell<u64> = const { Cell::new(0) };
    static FED: Cell<u64> = const { Cell::new(0) };
}

/// A hasher that tells any two strings of bytes apart.
#[derive(Clone, Debug, Default)]
struct Exact(u64);
struct Fed(Vec<u8>, u64);
impl BuildHasher for Exact {
    type Hasher = Fed;
    fn build_hasher(&self) -> Fed {
        BUILT.set(BUILT.get() + 1);
        Fed(Vec::new(), self.0)
    }
}
impl Hasher for Fed {
    fn write(&mut self, b: &[u8]) {
        FED.set(FED.get() + b.len() as u64);
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        IDS.with(|m| {
            let mut m = m.borrow_mut();
            let n = m.len() as u64;
            *m.entry(self.0.clone()).or_insert(n)
        })
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
            ^ self.1
    }
}

/// Bytes as String, if they are, and as [u8]: what hashing their slice gives, or nothing if it panics.
fn hashes<B: BuildHasher>(bytes: &[u8], bh: &B, r: &Range<usize>) -> Vec<(&'static str, Option<u64>)> {
    let mut out = vec![("[u8]", caught(|| SliceHash::hash(bytes, bh, r.clone())).ok())];
    if let Ok(s) = String::from_utf8(bytes.to_vec()) {
        out.push(("String", caught(|| SliceHash::hash(&s, bh, r.clone())).ok()));
    }
    out
}

fn some_range(rng: &mut Rng, len: usize) -> Range<usize> {
    let a = match rng.below(8) {
        0 | 1 => 0,
        2 => len,
        3 => len + rng.below(3),
        _ => rng.below(len + 1),
    };
    let b = match rng.below(10) {
        0 => a,
        1 => len,
        2 => len + 1 + rng.below(3),
        3 => usize::MAX - rng.below(2),
        4 => a.saturating_sub(1 + rng.below(3)),
        _ => a + rng.below((len + 1).saturating_sub(a).max(1)),
    };
    a..b
}

fn slices(rng: &mut Rng, mon: &mut Mon) {
    IDS.with(|m| m.borrow_mut().clear());
    let n = 1 + rng.below(12);
    let (strings, shape) = gen_strings(rng, n);
    let mut values: Vec<Vec<u8>> = strings.into_iter().map(String::into_bytes).collect();
    for v in &mut values {
        if rng.chance(4) {
            // any bytes, also such as no string has
            for _ in 0..1 + rng.below(4) {
                let at = rng.below(v.len() + 1);
                v.insert(at, rng.next() as u8);
            }
        }
        if rng.chance(12) {
            v.truncate(rng.below(4));
        }
    }
    let bh = Exact(rng.next());
    mon.describe(|| format!("{shape}: {:?}", values.iter().map(|v| String::from_utf8_lossy(&v[..v.len().min(60)]).into_owned()).collect::<Vec<_>>()));
    mon.case(&values, values.len() > 1);
    let mut seen: HashMap<u64, (Vec<u8>, String)> = HashMap::new();
    let mut by_slice: HashMap<Vec<u8>, (u64, String)> = HashMap::new();
    let note = |kind: &str, v: &[u8], r: &Range<usize>, got: Option<u64>, seen: &mut HashMap<u64, (Vec<u8>, String)>, by: &mut HashMap<Vec<u8>, (u64, String)>| {
        let inside = r.start <= r.end && r.end <= v.len();
        vassert!(got.is_some() == inside, "hashing {r:?} of a {kind} of {} bytes {}", v.len(), if inside { "panics" } else { "doesn't panic" });
        let Some(h) = got else { return false };
        let what = || format!("{r:?} of {kind} {:?}", String::from_utf8_lossy(v));
        let slice = v[r.clone()].to_vec();
        let (h0, w0) = by.entry(slice.clone()).or_insert_with(|| (h, what()));
        vassert!(*h0 == h, "equal slices hash differently: {} and {}", w0, what());
        let (s0, w0) = seen.entry(h).or_insert_with(|| (slice.clone(), what()));
        vassert!(*s0 == slice, "slices {s0:?} and {slice:?} hash alike, with a hasher that tells any bytes apart: {} and {}", w0, what());
        true
    };
    for v in &values {
        for _ in 0..6 {
            let r = some_range(rng, v.len());
            BUILT.set(0);
            FED.set(0);
            let hs = hashes(v, &bh, &r);
            let k = hs.iter().filter(|h| h.1.is_some()).count() as u64;
            vassert!(k == 0 || BUILT.get() <= hs.len() as u64, "hashing {r:?} once builds {} hashers", BUILT.get());
            for (kind, got) in hs {
                if note(kind, v, &r, got, &mut seen, &mut by_slice) {
                    mon.ev("slices hashed", 1);
                } else {
                    mon.ev("ranges refused", 1);
                }
            }
            if r.start <= r.end && r.end <= v.len() {
                // the same slice amid other bytes, elsewhere
                let slice = &v[r.clone()];
                let mut other: Vec<u8> = (0..rng.below(9)).map(|_| b'a' + rng.below(26) as u8).collect();
                let at = other.len();
                other.extend_from_slice(slice);
                other.extend((0..rng.below(9)).map(|_| b'a' + rng.below(26) as u8));
                for (kind, got) in hashes(&other, &bh, &(at..at + slice.len())) {
                    note(kind, &other, &(at..at + slice.len()), got, &mut seen, &mut by_slice);
                    mon.ev("equal slices in other places", 1);
                }
                // and one byte different, in the slice
                if !slice.is_empty() {
                    let i = at + rng.below(slice.len());
                    other[i] ^= 1 << rng.below(8);
                    for (kind, got) in hashes(&other, &bh, &(at..at + slice.len())) {
                        note(kind, &other, &(at..at + slice.len()), got, &mut seen, &mut by_slice);
                        mon.ev("slices with one bit different", 1);
                    }
                    let end = at + slice.len();
                    for (kind, got) in hashes(&other, &bh, &(at..end - 1)) {
                        note(kind, &other, &(at..end - 1), got, &mut seen, &mut by_slice);
                    }
                }
            }
        }
    }
}

/// Collections over any range: within the keys, partly or wholly beyond some or all of them.
fn collections(rng: &mut Rng, mon: &mut Mon) {
    let n = rng.below(24);
    let (keys, shape) = gen_strings(rng, n);
    let probes = probe_strings(rng, &keys, 12);
    let longest = keys.iter().map(String::len).max().unwrap_or(0);
    let mut r = some_range(rng, longest);
    if r.start > r.end {
        r = r.end..r.start;
    }
    let bh = Bh::any(rng);
    mon.describe(|| format!("{shape}, {r:?} of {keys:?}"));
    mon.case(&(&keys, r.start, r.end), keys.len() > 1);
    let model: BTreeMap<&String, u64> = keys.iter().zip(0..).collect();
    let e: Vec<(String, u64)> = keys.iter().cloned().zip(0..).collect();
    macro_rules! go {
        ($m:ident, $s:ident, $bh:expr, $b:ty) => {{
            let mut m = $m::<String, u64, u16, $b>::from_vec_with_hasher(e.clone(), r.clone(), $bh);
            let s = $s::<String, u16, $b>::from_vec_with_hasher(keys.clone(), r.clone(), $bh);
            for p in &probes {
                let w = model.get(p).copied();
                vassert!(m.get(p).copied() == w, "{} over {r:?}: get({p:?}) is {:?}, expected {w:?}", stringify!($m), m.get(p));
                vassert!(m.get_key_value(p).map(|x| (x.0, *x.1)) == w.map(|w| (p, w)), "{} over {r:?}: get_key_value({p:?}) is {:?}, expected {w:?}", stringify!($m), m.get_key_value(p));
                vassert!(m.contains_key(p) == w.is_some(), "{} over {r:?}: contains_key({p:?}) is {}", stringify!($m), m.contains_key(p));
                vassert!(m.get_mut(p).copied() == w, "{} over {r:?}: get_mut({p:?}), expected {w:?}", stringify!($m));
                vassert!(s.contains(p) == w.is_some(), "{} over {r:?}: contains({p:?}) is {}", stringify!($s), s.contains(p));
                vassert!(s.get(p) == w.map(|_| p), "{} over {r:?}: get({p:?}) is {:?}", stringify!($s), s.get(p));
            }
        }};
    }
    go!(LeftSliceMap, LeftSliceSet, bh.clone(), Bh);
    go!(RightSliceMap, RightSliceSet, bh.clone(), Bh);
    IDS.with(|m| m.borrow_mut().clear());
    go!(LeftSliceMap, LeftSliceSet, Exact(7), Exact);
    go!(RightSliceMap, RightSliceSet, Exact(7), Exact);
    let shorter = keys.iter().filter(|k| k.len() < r.end).count();
    mon.ev(if shorter == 0 { "collections whose range lies in every key" } else { "collections whose range reaches beyond some key" }, 1);
    mon.ev("keys looked up", 8 * probes.len() as u64);
}

fn main() {
    run_cases(|i, rng, mon| if i % 3 == 2 { collections(rng, mon) } else { slices(rng, mon) });
}
