//! Key universes: shapes of key sets that lead the code under test through its different
//! implementations, and probes that come close to the keys.

use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::NonZeroU32;

use crate::rng::Rng;

pub trait Key: Clone + Eq + Hash + Debug + 'static {
    const NAME: &'static str;
    /// About `n` distinct keys (fewer if there aren't that many) and the name of their shape.
    fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str);
    /// Keys to look up, present or not.
    fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self>;
    /// An equal key, which can be told apart if the type allows.
    fn variant(&self, _tag: u64) -> Self {
        self.clone()
    }
    /// What tells this instance from equal ones.
    fn instance(&self) -> u64 {
        0
    }
    /// Whether the lives of such keys are registered.
    fn registered() -> bool {
        false
    }
    /// A buffer the key owns.
    fn heap(&self) -> Option<*const u8> {
        None
    }
}

pub fn dedup<K: Hash + Eq + Clone>(keys: Vec<K>) -> Vec<K> {
    let mut seen = HashSet::with_capacity(keys.len());
    keys.into_iter().filter(|k| seen.insert(k.clone())).collect()
}

/// Collections larger than this get benign hashers, and samples only of lookups that may be slow.
pub const LARGE: usize = 20_000;

/// A size that often sits at a boundary of the implementation choices.
pub fn gen_size(rng: &mut Rng, cap: usize) -> usize {
    if cap >= 3000 && rng.chance(1000) {
        // beyond what 16 bits count, in entries or in slots
        return if rng.chance(3) { rng.range(65_533, 65_538) } else { rng.range(40_000, 130_000) };
    }
    let n = match rng.below(20) {
        0..=6 => rng.range(0, 9),
        7..=10 => rng.range(4, 40),
        11 | 12 => rng.range(41, 127),
        13 => rng.range(120, 135),
        14 | 15 => rng.range(250, 262),
        16 | 17 => rng.range(128, 700),
        18 => rng.range(980, 1020),
        _ => rng.range(700, 3000),
    };
    n.min(cap)
}

macro_rules! int_key {
    ($($t:ident)*) => { $(
        impl Key for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
                let bits = <$t>::BITS;
                let n = if bits <= 8 { n.min(256) } else { n };
                let rnd = |rng: &mut Rng| {
                    let k = rng.below(bits as usize) as u32;
                    (rng.next128() as $t) >> k
                };
                let shape = rng.below(14);
                // where a run of `len` consecutive keys starts
                let run_start = |rng: &mut Rng, len: usize| -> $t {
                    let room = if bits >= 64 { usize::MAX } else { ((1u128 << bits) as usize).saturating_sub(len) };
                    match rng.below(6) {
                        0 => <$t>::MIN,
                        1 => <$t>::MAX.wrapping_sub((len.max(1) - 1) as $t),
                        2 => {
                            // crosses zero if the type is signed
                            if <$t>::MIN == 0 { 0 } else { (0 as $t).wrapping_sub(rng.below(len.min(room.saturating_add(1)).max(1)) as $t) }
                        }
                        3 => (rng.below(50).min(room)) as $t,
                        4 => if <$t>::MIN == 0 { 1 as $t } else { <$t>::MIN.wrapping_add(rng.below(3).min(room) as $t) },
                        _ => {
                            let off = rng.below(room.max(1).min(usize::MAX - 1) + 1);
                            if bits > 64 && rng.chance(2) {
                                (rng.next128() as $t) >> 1
                            } else {
                                <$t>::MIN.wrapping_add(off as $t)
                            }
                        }
                    }
                };
                let mut v: Vec<$t> = Vec::with_capacity(n + 8);
                let name;
                match shape {
                    0..=2 => {
                        name = "run";
                        let s = run_start(rng, n);
                        let mut k = s;
                        for i in 0..n {
                            v.push(k);
                            if k == <$t>::MAX { break; }
                            if i + 1 < n { k += 1; }
                        }
                    }
                    3 => {
                        name = "run with a gap";
                        let s = run_start(rng, n + 1);
                        let gap = rng.below(n + 1);
                        for i in 0..=n {
                            if i != gap {
                                if let Some(k) = s.checked_add(i as $t) { v.push(k) }
                            }
                        }
                    }
                    4 => {
                        name = "run and an outlier";
                        let m = n.max(1) - 1;
                        let s = run_start(rng, m);
                        for i in 0..m {
                            if let Some(k) = s.checked_add(i as $t) { v.push(k) }
                        }
                        let e = s.wrapping_add(m as $t);
                        if n > 0 {
                            v.push(match rng.below(5) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => e.wrapping_add(1), 3 => s.wrapping_sub(2), _ => rnd(rng) });
                        }
                    }
                    5 | 6 => {
                        name = "progression";
                        let step = *rng.pick(&[2usize, 2, 3, 4, 7, 10, 16, 64, 100, 128, 131, 256, 1000, 1024, 4096, 65536, n.max(1), 2 * n.max(1), 16 * n.max(1)]);
                        let s = run_start(rng, 1);
                        let mut k = s;
                        for _ in 0..n {
                            v.push(k);
                            k = k.wrapping_add(step as $t);
                        }
                    }
                    7 | 8 => {
                        name = "random";
                        for _ in 0..n { v.push(rng.next128() as $t); }
                    }
                    9 => {
                        name = "random magnitudes";
                        for _ in 0..n { v.push(rnd(rng)); }
                    }
                    10 => {
                        name = "bit patterns";
                        for _ in 0..n {
                            let b = (1 as $t).wrapping_shl(rng.below(bits as usize) as u32);
                            v.push(match rng.below(4) { 0 => b, 1 => b.wrapping_sub(1), 2 => !b, _ => b.wrapping_add(1) });
                        }
                    }
                    11 => {
                        name = "dense with holes";
                        let s = run_start(rng, n);
                        for i in 0..n + n / 4 + 2 {
                            if rng.below(5) != 0 {
                                if let Some(k) = s.checked_add(i as $t) { v.push(k) }
                            }
                        }
                        v.truncate(n);
                    }
                    12 => {
                        name = "two runs";
                        let h = n / 2;
                        let s = run_start(rng, h);
                        for i in 0..h { if let Some(k) = s.checked_add(i as $t) { v.push(k) } }
                        let s = run_start(rng, n - h);
                        for i in 0..n - h { if let Some(k) = s.checked_add(i as $t) { v.push(k) } }
                    }
                    _ => {
                        name = "extremes";
                        v.extend([<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MIN + 1, <$t>::MAX - 1]);
                        v.truncate(n);
                        while v.len() < n { v.push(rnd(rng)); }
                    }
                }
                let mut v = dedup(v);
                v.truncate(n);
                order(rng, &mut v);
                (v, name)
            }
            fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self> {
                let bits = <$t>::BITS;
                if bits <= 8 {
                    return (0..256u16).map(|x| x as $t).collect();
                }
                let mut p: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, 0, 1, (0 as $t).wrapping_sub(1), <$t>::MIN + 1, <$t>::MAX - 1];
                let n = keys.len();
                let each = (limit / 8).max(4);
                let mut sel: Vec<usize> = (0..n).collect();
                if n > each {
                    rng.shuffle(&mut sel);
                    sel.truncate(each);
                }
                if let (Some(mn), Some(mx)) = (keys.iter().min(), keys.iter().max()) {
                    p.extend([*mn, *mx, mn.wrapping_sub(1), mx.wrapping_add(1), mn.wrapping_add(1), mx.wrapping_sub(1)]);
                }
                for i in sel {
                    let k = keys[i];
                    p.push(k);
                    p.push(k.wrapping_add(1));
                    p.push(k.wrapping_sub(1));
                    p.push(k.wrapping_add(n as $t));
                    p.push(k.wrapping_sub(n as $t));
                    p.push(k ^ (1 as $t).wrapping_shl(rng.below(bits as usize) as u32));
                    p.push(k.wrapping_add((n as $t).wrapping_mul(rng.range(2, 20) as $t)));
                    p.push(rng.next128() as $t);
                }
                p
            }
        }
    )* };
}

int_key!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);

/// Leaves, sorts, reverses or shuffles the keys.
pub fn order<T: Ord>(rng: &mut Rng, v: &mut [T]) {
    match rng.below(6) {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse();
        }
        2 => {}
        3 => {
            v.sort();
            let n = v.len();
            if n > 1 {
                let k = rng.below(n);
                v.rotate_left(k);
            }
        }
        _ => rng.shuffle(v),
    }
}

/// `width` characters that number `i` over `alphabet`.
fn digits(mut i: usize, width: usize, alphabet: &[char]) -> String {
    let mut s = Vec::new();
    for _ in 0..width {
        s.push(alphabet[i % alphabet.len()]);
        i /= alphabet.len();
    }
    s.iter().rev().collect()
}

fn width_for(n: usize, base: usize) -> usize {
    let mut w = 1;
    let mut c = base;
    while c < n {
        c = c.saturating_mul(base);
        w += 1;
    }
    w
}

fn rand_str(rng: &mut Rng, lo: usize, hi: usize, alphabet: &[char]) -> String {
    let n = rng.range(lo, hi);
    (0..n).map(|_| *rng.pick(alphabet)).collect()
}

pub fn alphabet(rng: &mut Rng) -> Vec<char> {
    match rng.below(8) {
        0 => vec!['A', 'B'],
        1 => "abc".chars().collect(),
        2 | 3 => ('a'..='z').collect(),
        4 => ('0'..='9').collect(),
        5 => ('!'..='~').collect(),
        6 => "aé日𝄞".chars().collect(),
        _ => "αβγδεζηθικλμνξοπρστυφχψω".chars().collect(),
    }
}

pub fn gen_strings(rng: &mut Rng, n: usize) -> (Vec<String>, &'static str) {
    let alpha = alphabet(rng);
    let base = alpha.len();
    let w = width_for(n.max(1), base) + rng.below(2);
    let filler = *rng.pick(&['X', '-', 'a', 'é']);
    let shape = if rng.chance(40) { 17 + rng.below(3) } else { rng.below(17) };
    let mut v: Vec<String> = Vec::with_capacity(n);
    let name;
    match shape {
        0 => {
            name = "all lengths differ";
            let n = n.min(400);
            for i in 0..n {
                v.push(std::iter::repeat(filler).take(i + rng.below(1)).collect());
            }
        }
        1 => {
            name = "few of each length";
            for i in 0..n.min(400) {
                let mut s: String = std::iter::repeat(filler).take(i / rng.range(1, 3)).collect();
                s.push(*rng.pick(&alpha));
                v.push(s);
            }
        }
        2 => {
            name = "equal lengths, random";
            let len = w + rng.below(12);
            for _ in 0..n {
                v.push(rand_str(rng, len, len, &alpha));
            }
        }
        3 | 4 => {
            name = "unique column between common ends";
            let pre: String = std::iter::repeat(filler).take(rng.below(25)).collect();
            let suf: String = std::iter::repeat('z').take(rng.below(6)).collect();
            let vary = rng.chance(2);
            for i in 0..n {
                let mut s = format!("{pre}{}{suf}", digits(i, w, &alpha));
                if vary && rng.chance(2) {
                    s.push_str(&rand_str(rng, 0, 9, &alpha));
                }
                v.push(s);
            }
        }
        5..=7 => {
            name = "unique tail after fillers of many lengths";
            let pre = rng.range(0, 3);
            let max = rng.range(1, 12);
            let suf: String = std::iter::repeat('q').take(if rng.chance(2) { 0 } else { rng.below(4) }).collect();
            let f: Vec<char> = vec![filler];
            for i in 0..n {
                v.push(format!("{}{}{suf}", rand_str(rng, pre.max(w * 2), pre.max(w * 2) + max, &f), digits(i, w, &alpha)));
            }
        }
        8 => {
            name = "random";
            for _ in 0..n {
                v.push(rand_str(rng, 0, 20, &alpha));
            }
        }
        9 => {
            name = "long common start";
            let pre: String = std::iter::repeat(filler).take(rng.range(15, 60)).collect();
            for i in 0..n {
                v.push(format!("{pre}{}", digits(i, w.max(rng.range(1, 20)), &['0', '1'])));
            }
        }
        10 => {
            name = "numbers";
            let s = rng.below(2000);
            let pre = *rng.pick(&["", "key_", "item-", "https://example.com/", "日本"]);
            for i in 0..n {
                v.push(format!("{pre}{}", s + i));
            }
        }
        11 => {
            name = "padded numbers";
            let pre = *rng.pick(&["", "k", "user:"]);
            for i in 0..n {
                v.push(format!("{pre}{i:06}"));
            }
        }
        12 => {
            name = "all short words over a small alphabet";
            let mut l = 0;
            'o: loop {
                for i in 0..2usize.pow(l) {
                    if v.len() >= n {
                        break 'o;
                    }
                    v.push(digits(i, l as usize, &['A', 'B']));
                }
                l += 1;
            }
        }
        13 => {
            name = "some shared slices";
            let w = w.max(2);
            for i in 0..n {
                let j = if i > 0 && rng.below(25) == 0 { i - 1 } else { i };
                let d = digits(j, w, &alpha);
                v.push(if rng.chance(2) { format!("{d}{}", rand_str(rng, 0, 8, &alpha)) } else { format!("{}{d}", rand_str(rng, 0, 8, &['x', 'y'])) });
            }
        }
        14 => {
            name = "one short key among long ones";
            for i in 0..n {
                v.push(format!("{}{}", rand_str(rng, 5, 20, &alpha), digits(i, w, &alpha)));
            }
            if n > 0 {
                let k = rng.below(v.len());
                v[k] = rand_str(rng, 0, 2, &alpha);
            }
        }
        15 => {
            name = "identifiers in words";
            const W: [&str; 12] = ["alpha", "beta", "get", "set", "name", "value", "type", "id", "count", "first", "last", "é"];
            for _ in 0..n {
                let k = rng.range(1, 4);
                let parts: Vec<&str> = (0..k).map(|_| *rng.pick(&W)).collect();
                v.push(parts.join("_"));
            }
        }
        17 | 18 => {
            name = "very long common start or end";
            // what distinguishes them lies around position 256, rarely 65536
            let far = !cfg!(miri) && rng.chance(12);
            let (len, n) = if far { (rng.range(65_530, 65_545), n.min(8)) } else { (rng.range(120, 600), n.min(60)) };
            let common: String = std::iter::repeat('-').take(len).collect();
            let letters: Vec<char> = ('0'..='z').collect();
            let vary = rng.chance(2);
            for i in 0..n {
                let d = digits(i, 1, &letters);
                let more = if vary { rand_str(rng, 0, 5, &alpha) } else { String::new() };
                v.push(if shape == 17 { format!("{common}{d}{more}") } else { format!("{more}{d}{common}") });
            }
        }
        19 => {
            name = "lengths that agree in their low bits";
            let far = !cfg!(miri) && rng.chance(12);
            let (step, n) = if far { (65_536, n.min(9)) } else { (*rng.pick(&[128usize, 256, 256, 256, 512]), n.min(24)) };
            let l = rng.below(5);
            for i in 0..n {
                let mut s: String = std::iter::repeat(filler).take(l + step * (i / 2)).collect();
                if i % 2 == 1 {
                    s.pop();
                    s.push('~');
                }
                v.push(s);
            }
        }
        _ => {
            name = "permuted columns";
            let len = rng.range(2, 8).max(w);
            for i in 0..n {
                let mut c: Vec<char> = digits(i, len, &alpha).chars().collect();
                let k = rng.below(len);
                c.rotate_left(k);
                v.push(c.into_iter().collect());
            }
        }
    }
    let mut v = dedup(v);
    v.truncate(n);
    order(rng, &mut v);
    (v, name)
}

pub fn probe_strings(rng: &mut Rng, keys: &[String], limit: usize) -> Vec<String> {
    let mut p: Vec<String> = vec![String::new(), "a".into(), "X".into(), "XX".into(), "é".into(), "AB".into(), "0".repeat(300)];
    let n = keys.len();
    let each = (limit / 11).max(4);
    let mut sel: Vec<usize> = (0..n).collect();
    if n > each {
        rng.shuffle(&mut sel);
        sel.truncate(each);
    }
    for i in sel {
        let k = &keys[i];
        let c: Vec<char> = k.chars().collect();
        p.push(k.clone());
        p.push(k.clone() + "a");
        p.push(format!("X{k}"));
        if !c.is_empty() {
            p.push(c[1..].iter().collect());
            p.push(c[..c.len() - 1].iter().collect());
            // change one character, keep the rest
            let mut d = c.clone();
            let at = rng.below(d.len());
            d[at] = if d[at] == '~' { 'a' } else { '~' };
            p.push(d.iter().collect());
            // swap two characters
            let mut d = c.clone();
            let (x, y) = (rng.below(d.len()), rng.below(d.len()));
            d.swap(x, y);
            p.push(d.iter().collect());
            // same start or end as another key
            let o: Vec<char> = rng.pick(keys).chars().collect();
            let cut = rng.below(c.len() + 1);
            let ocut = rng.below(o.len() + 1);
            p.push(c[..cut].iter().chain(&o[ocut..]).collect());
            let same = cut.min(o.len());
            p.push(c[..same].iter().chain(&o[same..]).collect());
            // same tail, other head and length
            let tail: String = c[c.len() - rng.range(1, c.len().min(4))..].iter().collect();
            p.push(format!("{}{tail}", "Q".repeat(rng.below(6))));
            let head: String = c[..rng.range(1, c.len().min(4))].iter().collect();
            p.push(format!("{head}{}", "Q".repeat(rng.below(6))));
        }
    }
    let alpha = alphabet(rng);
    for _ in 0..8 {
        p.push(rand_str(rng, 0, 12, &alpha));
    }
    p
}

impl Key for String {
    const NAME: &'static str = "String";
    fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        gen_strings(rng, n)
    }
    fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self> {
        probe_strings(rng, keys, limit)
    }
    fn heap(&self) -> Option<*const u8> {
        (!self.is_empty()).then(|| self.as_ptr())
    }
}

/// Keys that are equal although they can be told apart.
#[derive(Clone, Debug)]
pub struct Inst {
    pub id: u32,
    pub tag: u64,
}
impl PartialEq for Inst {
    fn eq(&self, o: &Self) -> bool {
        crate::hashers::pause();
        self.id == o.id
    }
}
impl Eq for Inst {}
impl Hash for Inst {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h);
    }
}
impl PartialOrd for Inst {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Inst {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}

/// Over-aligned key.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(align(64))]
pub struct Wide(pub u32);

/// Same representation as the specially treated types.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(transparent)]
pub struct NewU32(pub u32);
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(transparent)]
pub struct NewString(pub String);

macro_rules! derived_key {
    ($name:literal, $t:ty, $src:ty, |$x:ident| $e:expr, |$y:ident| $b:expr $(, $more:item)*) => {
        impl Key for $t {
            const NAME: &'static str = $name;
            fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
                let (v, s) = <$src as Key>::gen(rng, n);
                (dedup(v.into_iter().map(|$x| $e).collect()), s)
            }
            fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self> {
                let k: Vec<$src> = keys.iter().map(|$y| $b).collect();
                let mut p: Vec<Self> = <$src as Key>::probes(rng, &k, limit).into_iter().map(|$x| $e).collect();
                p.truncate(limit * 2);
                p
            }
            $($more)*
        }
    };
}

derived_key!("instance key", Inst, u32, |x| Inst { id: x, tag: 0 }, |y| y.id,
    fn variant(&self, tag: u64) -> Self { Inst { id: self.id, tag } },
    fn instance(&self) -> u64 { self.tag }
);
derived_key!("aligned key", Wide, u32, |x| Wide(x), |y| y.0);
derived_key!("u32 newtype", NewU32, u32, |x| NewU32(x), |y| y.0);
derived_key!("String newtype", NewString, String, |x| NewString(x), |y| y.0.clone());
derived_key!("Box<str>", Box<str>, String, |x| x.into_boxed_str(), |y| y.to_string());
derived_key!("Vec<u8>", Vec<u8>, String, |x| x.into_bytes(), |y| String::from_utf8_lossy(y).into_owned());
derived_key!("(u16, u8)", (u16, u8), u32, |x| ((x >> 3) as u16, (x & 7) as u8), |y| (u32::from(y.0) << 3) | u32::from(y.1));
derived_key!("Option<u32>", Option<u32>, u32, |x| x.checked_sub(1), |y| y.map_or(0, |x| x.wrapping_add(1)));
derived_key!("NonZeroU32", NonZeroU32, u32, |x| NonZeroU32::new(x).unwrap_or(NonZeroU32::MIN), |y| y.get());
derived_key!("char", char, u32, |x| char::from_u32(x % 0xD800).unwrap(), |y| *y as u32);
derived_key!("[u8; 3]", [u8; 3], u32, |x| [x as u8, (x >> 8) as u8, (x >> 16) as u8], |y| u32::from(y[0]) | (u32::from(y[1]) << 8) | (u32::from(y[2]) << 16));
derived_key!("&'static str", &'static str, u32, |x| STRS[(x as usize) % STRS.len()], |y| STRS.iter().position(|s| s == y).unwrap() as u32);
derived_key!("bool", bool, u32, |x| x & 1 == 1, |y| u32::from(*y));

impl Key for () {
    const NAME: &'static str = "()";
    fn gen(_: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        (vec![(); n.min(1)], "unit")
    }
    fn probes(_: &mut Rng, _: &[Self], _: usize) -> Vec<Self> {
        vec![()]
    }
}

pub static STRS: [&str; 48] = [
    "", "a", "b", "c", "aa", "ab", "ba", "bb", "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota",
    "kappa", "lambda", "mu", "nu", "xi", "omicron", "pi", "rho", "sigma", "tau", "upsilon", "phi", "chi", "psi", "omega", "one",
    "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "été", "日本", "日本語", "naïve", "x1", "x2",
];
