//! C17: construction terminates, hashes each key a bounded number of times, and takes linear memory.

use std::cell::Cell;
use std::hash::{Hash, Hasher};

use frozen_collections_core::specialized_maps::IntegerMap;
use frozen_collections_core::specialized_sets::IntegerSet;
use vh::catalog::{Custom, MkVal};
use vh::checks::{describe_case, with_repeats};
use vh::hashers::{counts, reset_counts, Bh, Mode};
use vh::keys::{dedup, Key};
use vh::maps::{facade_specs, hashed_specs, hashed_specs_wide, integer_specs, length_specs, slice_specs, MapSpec};
use vh::rng::{mix, Rng};
use vh::run::{run_cases, Mon};
use vh::sets::{facade_set_specs, hashed_set_specs, hashed_set_specs_wide, integer_set_specs, length_set_specs, slice_set_specs, SetSpec};
use vh::tracked::{heap, mark_peak, peak, Counting};
use vh::vassert;

#[global_allocator]
static ALLOC: Counting = Counting;

thread_local! {
    static HASHED: Cell<u64> = const { Cell::new(0) };
}

/// Counts how often it is hashed.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Counted(u32);
impl Hash for Counted {
    fn hash<H: Hasher>(&self, h: &mut H) {
        HASHED.set(HASHED.get() + 1);
        h.write_u32(self.0);
    }
}
impl Key for Counted {
    const NAME: &'static str = "counted";
    fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = adversarial(rng, n);
        (v.into_iter().map(Counted).collect(), s)
    }
    fn probes(_: &mut Rng, keys: &[Self], _: usize) -> Vec<Self> {
        keys.to_vec()
    }
}

fn size(rng: &mut Rng) -> usize {
    match rng.below(24) {
        0..=5 => rng.below(20),
        6..=9 => rng.range(4, 140),
        10..=13 => rng.range(126, 260),
        14..=17 => rng.range(250, 1100),
        18..=21 => rng.range(990, 5000),
        22 => rng.range(5000, 20_000),
        _ => rng.range(20_000, 70_000),
    }
}

/// Integers, many of them congruent modulo the table sizes a hash table might choose.
fn adversarial(rng: &mut Rng, n: usize) -> (Vec<u32>, &'static str) {
    let (mut v, name): (Vec<u32>, _) = match rng.below(8) {
        0 => ((0..n as u32).collect(), "run"),
        1 => {
            let m = (n as u32).max(1);
            ((0..n as u32).map(|i| i.wrapping_mul(m)).collect(), "multiples of the size")
        }
        2 => {
            // multiples of many small numbers
            let m = *rng.pick(&[5040u32, 55_440, 720_720, 510_510, 9_699_690]);
            ((0..n as u32).map(|i| i.wrapping_mul(m)).collect(), "multiples of many numbers")
        }
        3 => {
            let p = *rng.pick(&[131u32, 131 * 163, 197 * 239, 521 * 631, 1103 * 1327, 10_103, 75_431, 807_403]);
            ((0..n as u32).map(|i| i.wrapping_mul(p)).collect(), "multiples of table sizes")
        }
        4 => ((0..n as u64).map(|i| mix(i) as u32).collect(), "random"),
        5 => ((0..n as u32).map(|i| i << rng.below(20)).collect(), "shifted"),
        6 => {
            let m: u32 = 1 << rng.range(4, 31);
            ((0..n as u32).map(|i| i.wrapping_mul(m) | (i >> 12)).collect(), "powers of two")
        }
        _ => {
            let mut v: Vec<u32> = (0..n as u32).map(|i| 1000 + 2 * i).collect();
            if let Some(x) = v.last_mut() {
                *x = u32::MAX;
            }
            if let Some(x) = v.first_mut() {
                *x = 0;
            }
            (v, "outliers")
        }
    };
    v = dedup(v);
    if rng.chance(2) {
        rng.shuffle(&mut v);
    }
    (v, name)
}

/// Strings that take the analysis of subslices far.
fn strings(rng: &mut Rng, n: usize) -> (Vec<String>, &'static str) {
    if rng.chance(2) {
        return String::gen(rng, n.min(6000));
    }
    if rng.chance(8) {
        // no short slice tells them apart, and each that tells some apart is looked at for long
        let places = rng.range(2, 4);
        let side = match places {
            2 => rng.range(2, 26),
            3 => rng.range(2, 9),
            _ => rng.range(2, 5),
        };
        let len = rng.range(places * 20, 1500);
        let same = rng.chance(2);
        let v = (0..side.pow(places as u32))
            .map(|mut i| {
                let mut b = vec![b'.'; len + usize::from(!same && i == 0)];
                for p in 0..places {
                    b[len / 40 + p * (len - 1 - len / 20) / (places - 1)] = b'a' + (i % side) as u8;
                    i /= side;
                }
                String::from_utf8(b).unwrap()
            })
            .collect();
        return (v, if same { "equal lengths, differing far apart" } else { "differing far apart" });
    }
    let n = n.min(3000);
    let len = match rng.below(4) {
        0 => rng.range(1, 30),
        1 => rng.range(20, 120),
        _ => rng.range(1, 300),
    };
    let (v, name): (Vec<String>, _) = match rng.below(5) {
        // most keys share each short slice
        0 => (
            (0..n)
                .map(|i| {
                    let mut b = vec![b'a'; len.max(2)];
                    let p = (mix(i as u64) as usize) % b.len();
                    b[p] = b'b' + (i % 20) as u8;
                    let q = (mix(i as u64 + 7) as usize) % b.len();
                    b[q] = b'c' + (i % 21) as u8;
                    String::from_utf8(b).unwrap()
                })
                .collect(),
            "rarely differing long keys",
        ),
        1 => ((0..n).map(|i| format!("{}{:0w$b}", "a".repeat(rng.below(9)), i, w = len.max(14))).collect(), "binary digits"),
        2 => ((0..n).map(|i| "x".repeat(i * (1 + len / 50))).collect(), "long runs of one character"),
        3 => {
            let mut v: Vec<String> = (0..n).map(|i| format!("{}{i}", "k".repeat(len))).collect();
            v.push("z".repeat(200_000));
            v.push(String::new());
            (v, "one very long key")
        }
        _ => ((0..n).map(|i| format!("{i}{}{i}", "-".repeat(len))).collect(), "differing at both ends"),
    };
    (dedup(v), name)
}

fn index_size(spec: &str) -> usize {
    if spec.contains("<u8>") {
        1
    } else if spec.contains("<u16>") {
        2
    } else if spec.contains("<u32>") {
        4
    } else {
        8
    }
}

struct Measured {
    n: usize,
    entry: usize,
    index: usize,
    base: isize,
    payload: isize,
    /// length of the shortest key, if keys are strings
    shortest: usize,
    /// length of all keys together
    total: usize,
    /// most bytes an element of a key takes
    width: u64,
    texts: bool,
}

impl Measured {
    fn start(n: usize, entry: usize, spec: &str, payload: isize) -> Measured {
        reset_counts();
        HASHED.set(0);
        mark_peak();
        Measured { n, entry, index: index_size(spec), base: heap().0, payload, shortest: 0, total: 0, width: 2, texts: false }
    }

    fn judge(&self, what: &str, mon: &mut Mon) {
        let (n, peak, now) = (self.n as isize, peak() - self.base, heap().0 - self.base + self.payload);
        let entry = self.entry as isize;
        // the most this takes today: 16 slots of two indices for each entry, one copy of the entries
        let kept = n * (2 * entry + 64 * self.index as isize) + 4096;
        let used = n * (8 * entry + 128 + 64 * self.index as isize) + 8192;
        vassert!(now <= kept, "{what}: {n} entries of {entry} bytes take {now} bytes, expected at most {kept}");
        vassert!(peak <= used, "{what}: building {n} entries of {entry} bytes takes {peak} bytes more at its peak, expected at most {used}");
        let c = counts();
        let (n, h) = (self.n as u64, HASHED.get());
        let most = if self.texts { n * (8 + 64 * (self.shortest as u64 + 1)) } else { 8 * n } + 64;
        vassert!(c.builds <= most, "{what}: building {n} entries computes {} hash codes, expected at most {most}", c.builds);
        vassert!(h <= 8 * n + 64, "{what}: building {n} entries hashes keys {h} times");
        if self.texts {
            // slices of up to 16 elements from every index and either end, and some times all of the key
            let bytes = (n * (self.shortest as u64 + 1) * 2000 + self.total as u64 * 64) * self.width + 4096;
            vassert!(c.bytes <= bytes, "{what}: building {n} entries hashes {} bytes, the keys have {} elements, the shortest {}", c.bytes, self.total, self.shortest);
            mon.max("bytes hashed / bound", c.bytes as f64 / bytes as f64);
        }
        if n >= 64 {
            mon.max("bytes kept for each entry, beyond the entry", (now as f64 / n as f64) - entry as f64);
            mon.max("bytes kept / bound", now as f64 / kept as f64);
            mon.max("peak bytes / bound", peak as f64 / used as f64);
            mon.max("hash codes / bound", c.builds as f64 / most as f64);
            if !self.texts {
                mon.max("hash codes for each entry", c.builds as f64 / n as f64);
                mon.max("times each key is hashed", h as f64 / n as f64);
            }
        }
        mon.ev("hash codes computed", c.builds);
        mon.ev("times counted keys were hashed", h);
        mon.ev("entries built", n);
        mon.max("largest collection", n as f64);
    }
}

fn hasher(rng: &mut Rng) -> Bh {
    match rng.below(8) {
        0 => Bh::new(Mode::Const(*rng.pick(&[0, 1, u64::MAX, 1 << 63])), 0),
        1 => Bh::new(Mode::Mask(*rng.pick(&[1, 3, 15, 127])), rng.next()),
        2 => Bh::new(Mode::Step(rng.range(1, 200) as u64, *rng.pick(&[5040, 720_720, 131 * 163 * 197, 1 << 32])), rng.next()),
        3 => Bh::new(Mode::Ident, 0),
        _ => Bh::any(rng),
    }
}

fn map_case<K: Key, V: MkVal>(rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>], gen: impl Fn(&mut Rng, usize) -> (Vec<K>, &'static str), shortest: Option<fn(&K) -> usize>) {
    let n = size(rng);
    let (keys, shape) = gen(rng, n);
    let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
    let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
    let mut e: Vec<(K, V)> = keys.iter().cloned().enumerate().map(|(i, k)| (k, V::mk(i as u64))).collect();
    if spec.facade && rng.chance(4) {
        with_repeats(rng, &mut e, 5);
    }
    e.shrink_to_fit();
    let bh = hasher(rng);
    mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
    mon.case(&(spec.name, V::NAME, &keys), keys.len() >= 2);
    mon.ev(spec.name, 1);
    if matches!(bh.mode, Mode::Const(_) | Mode::Mask(_) | Mode::Step(..) | Mode::Ident | Mode::Shl(_)) {
        mon.ev("hashers that spread badly", 1);
    }
    mon.ev(&format!("keys: {shape}"), 1);
    mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
    let short = shortest.map(|f| keys.iter().map(f).min().unwrap_or(0));
    let total = shortest.map_or(0, |f| e.iter().map(|x| f(&x.0)).sum());
    let entry = std::mem::size_of::<(K, V)>();
    let mut m = Measured::start(e.len(), entry, spec.name, (e.capacity() * entry) as isize);
    m.texts = short.is_some();
    m.shortest = short.unwrap_or(0);
    m.total = total;
    let c = (spec.build)(e, rng, bh);
    m.judge(spec.name, mon);
    vassert!(c.d_len() == keys.len(), "{}: holds {} entries, built from {}", spec.name, c.d_len(), keys.len());
}

fn set_case<T: Key>(rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>], gen: impl Fn(&mut Rng, usize) -> (Vec<T>, &'static str), shortest: Option<fn(&T) -> usize>) {
    let n = size(rng);
    let (keys, shape) = gen(rng, n);
    let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
    let Some(spec) = (if fitting.is_empty() { None } else { Some(*rng.pick(&fitting)) }) else { return };
    let mut e = keys.clone();
    if spec.facade && rng.chance(4) {
        for _ in 0..rng.below(2 * keys.len() + 1) {
            e.push(rng.pick(&keys).clone());
        }
    }
    e.shrink_to_fit();
    let bh = hasher(rng);
    mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
    mon.case(&(spec.name, &keys), keys.len() >= 2);
    mon.ev(spec.name, 1);
    let short = shortest.map(|f| keys.iter().map(f).min().unwrap_or(0));
    let total = shortest.map_or(0, |f| e.iter().map(f).sum());
    let entry = std::mem::size_of::<T>();
    let mut m = Measured::start(e.len(), entry, spec.name, (e.capacity() * entry) as isize);
    m.texts = short.is_some();
    m.shortest = short.unwrap_or(0);
    m.total = total;
    let c = (spec.build)(e, rng, bh);
    m.judge(spec.name, mon);
    vassert!(c.d_len() == keys.len(), "{}: holds {} values, built from {}", spec.name, c.d_len(), keys.len());
}

/// So many entries that no table of primes helps.
fn huge(rng: &mut Rng, mon: &mut Mon) {
    let n = 7_600_000 + rng.below(100_000);
    let step = *rng.pick(&[1u32, 3, 7]);
    let start = rng.next() as u32;
    mon.describe(|| format!("{n} integers from {start} by {step}"));
    mon.case(&("huge", n, step), true);
    mon.ev("collections of millions", 1);
    let at = |i: usize| start.wrapping_add(step.wrapping_mul(i as u32));
    if rng.chance(2) {
        let e: Vec<(u32, u8)> = (0..n).map(|i| (at(i), i as u8)).collect();
        let m = Measured::start(n, 8, "usize", (e.capacity() * 8) as isize);
        let c = IntegerMap::<u32, u8, u32>::from_vec(e);
        m.judge("IntegerMap<u32>", mon);
        for _ in 0..1000 {
            let i = rng.below(n);
            vassert!(c.get(&at(i)) == Some(&(i as u8)), "IntegerMap of {n}: get({}) is {:?}", at(i), c.get(&at(i)));
            vassert!(c.get(&start.wrapping_sub(1 + i as u32 % 1000)).is_none(), "IntegerMap of {n} finds an absent key");
        }
    } else {
        let e: Vec<u32> = (0..n).map(at).collect();
        let m = Measured::start(n, 4, "usize", (e.capacity() * 4) as isize);
        let c = IntegerSet::<u32, u32>::from_vec(e);
        m.judge("IntegerSet<u32>", mon);
        for _ in 0..1000 {
            let i = rng.below(n);
            vassert!(c.contains(&at(i)), "IntegerSet of {n} lacks {}", at(i));
            vassert!(!c.contains(&start.wrapping_sub(1 + i as u32 % 1000)), "IntegerSet of {n} finds an absent key");
        }
    }
}

fn main() {
    let text: Option<fn(&String) -> usize> = Some(|s| s.len());
    run_cases(|i, rng, mon| match i % 8 {
        // once in a run, for it takes seconds
        5 if i % 20_000 == 13 && cfg!(not(debug_assertions)) => huge(rng, mon),
        0 => {
            let mut s = facade_specs::<Counted, u64>();
            s.extend(hashed_specs());
            s.extend(hashed_specs_wide());
            map_case(rng, mon, &s, Counted::gen, None)
        }
        1 => map_case(rng, mon, &facade_specs::<Counted, [u64; 5]>(), Counted::gen, None),
        2 => {
            let mut s = facade_specs::<u32, u64>();
            s.extend(integer_specs());
            map_case(rng, mon, &s, adversarial, None)
        }
        3 | 4 => {
            let mut s = facade_specs::<String, u64>();
            s.extend(facade_specs());
            s.extend(facade_specs());
            s.extend(slice_specs());
            s.extend(length_specs());
            map_case(rng, mon, &s, strings, text)
        }
        5 => {
            let mut s = facade_set_specs::<u32>();
            s.extend(integer_set_specs());
            set_case(rng, mon, &s, adversarial, None)
        }
        6 => {
            let mut s = facade_set_specs::<String>();
            s.extend(facade_set_specs());
            s.extend(slice_set_specs());
            s.extend(length_set_specs());
            set_case(rng, mon, &s, strings, text)
        }
        _ => {
            if rng.chance(3) {
                let mut s = slice_specs::<Custom, u64>();
                s.extend(length_specs());
                map_case(rng, mon, &s, Custom::gen, Some(|c: &Custom| c.0.len()))
            } else {
                let mut s = facade_set_specs::<Counted>();
                s.extend(hashed_set_specs());
                s.extend(hashed_set_specs_wide());
                set_case(rng, mon, &s, Counted::gen, None)
            }
        }
    });
}
