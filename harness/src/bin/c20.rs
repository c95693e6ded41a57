//! C20: Len reports the real length.

use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::Debug;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::rc::Rc;
use std::sync::Arc;

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::{CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap};
use frozen_collections_core::specialized_sets::{CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet};
use frozen_collections_core::traits::len::Len;
use vh::hashers::Bh;
use vh::maps::slice_range;
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::vassert;

/// Through the trait only, so that inherent methods don't get in the way.
fn len_of<L: Len + ?Sized>(l: &L) -> usize {
    l.len()
}
fn none_in<L: Len + ?Sized>(l: &L) -> bool {
    l.is_empty()
}

fn check<L: Len + ?Sized>(what: &str, l: &L, expect: usize, mon: &mut Mon) {
    let got = len_of(l);
    vassert!(got == expect, "{what}: len is {got}, it holds {expect}");
    vassert!(none_in(l) == (expect == 0), "{what}: is_empty is {}, it holds {expect}", none_in(l));
    let again: &dyn Fn() -> usize = &|| len_of(l);
    vassert!(again() == expect, "{what}: len changed to {}", again());
    mon.ev(what, 1);
    mon.ev("lengths compared", 1);
    mon.ev(if expect == 0 { "of them zero" } else { "of them more than zero" }, 1);
}

/// In every pointer, and pointers to pointers.
macro_rules! pointers {
    ($what:literal, $mk:expr, $n:expr, $mon:expr) => {{
        check(concat!("Box<", $what, ">"), &Box::new($mk), $n, $mon);
        check(concat!("Rc<", $what, ">"), &Rc::new($mk), $n, $mon);
        check(concat!("Arc<", $what, ">"), &Arc::new($mk), $n, $mon);
        check(concat!("Box<Arc<Rc<", $what, ">>>"), &Box::new(Arc::new(Rc::new($mk))), $n, $mon);
        let b: Box<dyn Len> = Box::new($mk);
        check(concat!("Box<dyn Len> of ", $what), &b, $n, $mon);
        check(concat!("dyn Len of ", $what), &*b, $n, $mon);
        let r: Rc<dyn Len> = Rc::new($mk);
        check(concat!("Rc<dyn Len> of ", $what), &r, $n, $mon);
    }};
}

macro_rules! unsized_pointers {
    ($what:literal, $t:ty, $r:expr, $n:expr, $mon:expr) => {{
        check($what, $r, $n, $mon);
        let b: Box<$t> = Box::from($r);
        check(concat!("Box<", $what, ">"), &b, $n, $mon);
        let rc: Rc<$t> = Rc::from($r);
        check(concat!("Rc<", $what, ">"), &rc, $n, $mon);
        let a: Arc<$t> = Arc::from($r);
        check(concat!("Arc<", $what, ">"), &a, $n, $mon);
        check(concat!("Rc<Box<", $what, ">>"), &Rc::new(b), $n, $mon);
        check(concat!("Box<Arc<", $what, ">>"), &Box::new(a), $n, $mon);
    }};
}

fn size(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => rng.range(250, 260),
        4 => rng.below(2000),
        _ => rng.below(40),
    }
}

fn text(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *rng.pick(&['a', 'Z', '0', ' ', 'é', 'ß', '€', '語', '🦀', '\u{301}', '\0', '\n'])).collect()
}

/// The number of bytes, computed from the characters.
fn bytes_in(s: &str) -> usize {
    s.chars()
        .map(|c| match c as u32 {
            0..=0x7f => 1,
            0x80..=0x7ff => 2,
            0x800..=0xffff => 3,
            _ => 4,
        })
        .sum()
}

fn strings(rng: &mut Rng, mon: &mut Mon) {
    let n = size(rng);
    let s = text(rng, n);
    let b = bytes_in(&s);
    mon.case(&("strings", &s), !s.is_empty());
    mon.describe(|| format!("{s:?}"));
    mon.sample(1, || format!("{s:?}"));
    check("String", &s, b, mon);
    let mut roomy = String::with_capacity(b + rng.below(100));
    roomy.push_str(&s);
    check("String", &roomy, b, mon);
    unsized_pointers!("str", str, s.as_str(), b, mon);
    pointers!("String", s.clone(), b, mon);
    let o = OsString::from(&s);
    check("OsString", &o, b, mon);
    unsized_pointers!("OsStr", OsStr, o.as_os_str(), b, mon);
    pointers!("OsString", o.clone(), b, mon);
    // a part of it
    let cut: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    if !cut.is_empty() {
        let i = *rng.pick(&cut);
        check("str", &s[i..], bytes_in(&s[i..]), mon);
        check("str", &s[..i], i, mon);
    }
    // what isn't UTF-8
    let raw: Vec<u8> = (0..n).map(|_| rng.range(1, 255) as u8).collect();
    check("OsString", &OsString::from_vec(raw.clone()), n, mon);
    check("OsStr", OsStr::from_bytes(&raw), n, mon);
    let c = CString::new(raw.clone()).expect("no zeros");
    check("CString", &c, n, mon);
    unsized_pointers!("CStr", CStr, c.as_c_str(), n, mon);
    pointers!("CString", c.clone(), n, mon);
    let mut long = raw;
    long.push(0);
    long.extend(b"more");
    check("CStr", CStr::from_bytes_until_nul(&long).expect("a zero"), n, mon);
}

fn fill<T: Debug>(rng: &mut Rng, n: usize, mk: impl Fn(usize) -> T) -> Vec<T> {
    let mut v = Vec::with_capacity(n + rng.below(50));
    for i in 0..n {
        v.push(mk(i));
    }
    v
}

fn standard(rng: &mut Rng, mon: &mut Mon) {
    let n = size(rng);
    mon.case(&("standard", n, rng.next()), n > 0);
    mon.describe(|| format!("standard collections of {n}"));
    macro_rules! of {
        ($mk:expr) => {{
            let mk = $mk;
            let v = fill(rng, n, mk);
            check("Vec", &v, n, mon);
            pointers!("Vec", fill(rng, n, mk), n, mon);
            check("slice", &v[..], n, mon);
            let i = rng.below(n + 1);
            check("slice", &v[i..], n - i, mon);
            let b: Box<[_]> = fill(rng, n, mk).into_boxed_slice();
            check("Box<[T]>", &b, n, mon);
            let r: Rc<[_]> = fill(rng, n, mk).into();
            check("Rc<[T]>", &r, n, mon);
            let a: Arc<[_]> = fill(rng, n, mk).into();
            check("Arc<[T]>", &a, n, mon);
            let mut d: VecDeque<_> = VecDeque::from(v);
            check("VecDeque", &d, n, mon);
            // wrapped around
            d.rotate_left(rng.below(n + 1).min(d.len()));
            let mut held = n;
            for _ in 0..rng.below(30) {
                if d.pop_front().is_some() {
                    held -= 1;
                }
                d.push_back(mk(held));
                held += 1;
            }
            check("VecDeque", &d, held, mon);
            pointers!("VecDeque", VecDeque::from(fill(rng, n, mk)), n, mon);
            let mut l: LinkedList<_> = fill(rng, n, mk).into_iter().collect();
            check("LinkedList", &l, n, mon);
            let tail = l.split_off(i);
            check("LinkedList", &tail, n - i, mon);
            check("LinkedList", &l, i, mon);
            pointers!("LinkedList", fill(rng, n, mk).into_iter().collect::<LinkedList<_>>(), n, mon);
        }};
    }
    match rng.below(4) {
        0 => of!(|_: usize| ()),
        1 => of!(|i: usize| i as u8),
        2 => of!(|i: usize| i.to_string()),
        _ => of!(|i: usize| [i; 7]),
    }
    let same = rng.chance(3);
    let mk = move |i: usize| if same { 7 } else { i };
    let h: BinaryHeap<usize> = (0..n).map(mk).collect();
    check("BinaryHeap", &h, n, mon);
    pointers!("BinaryHeap", (0..n).map(mk).collect::<BinaryHeap<usize>>(), n, mon);
    let d = if same { n.min(1) } else { n };
    macro_rules! keyed {
        ($what:literal, $mk:expr) => {{
            let mk = $mk;
            check($what, &mk(), d, mon);
            pointers!($what, mk(), d, mon);
        }};
    }
    keyed!("HashSet", || (0..n).map(mk).collect::<HashSet<usize>>());
    keyed!("HashMap", || (0..n).map(|i| (mk(i), i)).collect::<HashMap<usize, usize>>());
    keyed!("BTreeSet", || (0..n).map(mk).collect::<BTreeSet<usize>>());
    keyed!("BTreeMap", || (0..n).map(|i| (mk(i), i)).collect::<BTreeMap<usize, usize>>());
    let bh = Bh::any(rng);
    let mut s: HashSet<usize, Bh> = HashSet::with_capacity_and_hasher(rng.below(3000), bh.clone());
    s.extend(0..n.min(300));
    let gone = rng.below(n.min(300) + 1);
    for i in 0..gone {
        s.remove(&i);
    }
    check("HashSet", &s, n.min(300) - gone, mon);
    let mut m: HashMap<usize, usize, Bh> = HashMap::with_hasher(bh);
    m.extend((0..n.min(300)).map(|i| (i, i)));
    for i in 0..gone {
        m.remove(&i);
    }
    check("HashMap", &m, n.min(300) - gone, mon);
    let huge = *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, (1 << 32) + 5, u32::MAX as usize, 65536, 256]);
    let mut v: Vec<()> = Vec::new();
    // SAFETY: nothing takes no space
    unsafe { v.set_len(huge) };
    check("Vec", &v, huge, mon);
    check("slice", &v[..], huge, mon);
}

fn own(rng: &mut Rng, mon: &mut Mon) {
    let n = size(rng);
    let start = rng.next() as u32;
    let bh = Bh::good(rng);
    mon.case(&("own", n, start), n > 0);
    mon.describe(|| format!("collections of {n} keys from {start}, {bh:?}"));
    let run: Vec<i64> = (0..n as i64).map(|i| i + i64::from(start)).collect();
    let far: Vec<u32> = (0..n as u32).map(|i| start.wrapping_add(i.wrapping_mul(77))).collect();
    let words: Vec<String> = (0..n).map(|i| format!("{}{i}", "-".repeat(i % 5))).collect();
    let r = slice_range(rng);
    // facades also see every value several times
    let again = 1 + rng.below(3);
    let pairs = |k: &[u32]| k.iter().map(|x| (*x, *x)).collect::<Vec<_>>();
    let wpairs = || words.iter().map(|x| (x.clone(), 1u8)).collect::<Vec<_>>();
    let many = |w: &[String]| (0..again).flat_map(|_| w.to_vec()).collect::<Vec<_>>();
    macro_rules! both {
        ($what:literal, $mk:expr) => {{
            let mk = $mk;
            let c = mk();
            check($what, &c, n, mon);
            check(concat!("clone of ", $what), &c.clone(), n, mon);
            check(concat!("Box<", $what, ">"), &Box::new(mk()), n, mon);
            check(concat!("Arc<", $what, ">"), &Arc::new(mk()), n, mon);
            let seen = (&c).into_iter().count();
            vassert!(seen == n, "{}: {seen} items are visited, {n} were supplied", $what);
        }};
    }
    both!("FrozenSet", || FrozenSet::from_vec_with_hasher(many(&words), bh.clone()));
    both!("FrozenSet of u32", || FrozenSet::from_vec_with_hasher(far.clone(), bh.clone()));
    let fm = FrozenMap::from_vec_with_hasher(many(&words).into_iter().map(|w| (w, 1)).collect(), bh.clone());
    vassert!(fm.len() == n && fm.is_empty() == (n == 0), "FrozenMap: len is {}, it was given {n} different keys", fm.len());
    both!("CommonMap", || CommonMap::<u32, u32, usize, Bh>::from_vec_with_hasher(pairs(&far), bh.clone()));
    both!("CommonSet", || CommonSet::<String, u16, Bh>::from_vec_with_hasher(words.clone(), bh.clone()));
    both!("IntegerMap", || IntegerMap::<u32, u32, u32>::from_vec(pairs(&far)));
    both!("IntegerSet", || IntegerSet::<u32, u16>::from_vec(far.clone()));
    both!("IntegerRangeMap", || IntegerRangeMap::from_vec(run.iter().map(|x| (*x, *x)).collect()));
    both!("IntegerRangeSet", || IntegerRangeSet::from_vec(run.clone()));
    both!("ScanningMap", || ScanningMap::from_vec(pairs(&far)));
    both!("ScanningSet", || ScanningSet::from_vec(words.clone()));
    both!("LengthMap", || LengthMap::<String, u8, u16>::from_vec(wpairs()));
    both!("LengthSet", || LengthSet::<String, u16>::from_vec(words.clone()));
    both!("LeftSliceMap", || LeftSliceMap::<String, u8, u16, Bh>::from_vec_with_hasher(wpairs(), r.clone(), bh.clone()));
    both!("RightSliceMap", || RightSliceMap::<String, u8, u16, Bh>::from_vec_with_hasher(wpairs(), r.clone(), bh.clone()));
    both!("LeftSliceSet", || LeftSliceSet::<String, u16, Bh>::from_vec_with_hasher(words.clone(), r.clone(), bh.clone()));
    both!("RightSliceSet", || RightSliceSet::<String, u16, Bh>::from_vec_with_hasher(words.clone(), r.clone(), bh.clone()));
}

/// Length-hashed collections find keys of every such type, also by the forms they borrow as.
fn lookups(rng: &mut Rng, mon: &mut Mon) {
    let n = size(rng).min(200);
    let words: Vec<String> = (0..n).map(|i| format!("{}{i}", "é".repeat(rng.below(20)))).collect();
    let absent: Vec<String> = words.iter().map(|w| format!("{w}!")).collect();
    mon.case(&("lookups", &words), n > 0);
    mon.describe(|| format!("length collections of {words:?}"));
    macro_rules! keyed {
        ($what:literal, $t:ty, $mk:expr $(, $q:ty)*) => {{
            let mk = $mk;
            let m = LengthMap::<$t, usize, u8>::from_vec(words.iter().map(|w| mk(w)).zip(0..).collect());
            let s = LengthSet::<$t, u16>::from_vec(words.iter().map(|w| mk(w)).collect());
            for (i, w) in words.iter().enumerate() {
                let k: $t = mk(w);
                vassert!(m.get(&k) == Some(&i), "LengthMap of {}: get({k:?}) = {:?}, expected {i}", $what, m.get(&k));
                vassert!(s.contains(&k), "LengthSet of {}: lacks {k:?}", $what);
                $(
                    let q: &$q = std::borrow::Borrow::borrow(&k);
                    vassert!(len_of(q) == len_of(&k), "{}: {k:?} is {} long, borrowed {}", $what, len_of(&k), len_of(q));
                    vassert!(m.get(q) == Some(&i), "LengthMap of {}: get by {} finds {:?}, expected {i}", $what, stringify!($q), m.get(q));
                    mon.ev("lookups by borrowed forms", 1);
                )*
                mon.ev("lookups by length", 1);
            }
            for w in &absent {
                let k: $t = mk(w);
                vassert!(m.get(&k).is_none() && !s.contains(&k), "LengthMap or LengthSet of {}: finds {k:?}", $what);
            }
        }};
    }
    keyed!("String", String, |w: &String| w.clone());
    keyed!("Box<str>", Box<str>, |w: &String| w.clone().into_boxed_str());
    keyed!("Rc<str>", Rc<str>, |w: &String| Rc::from(w.as_str()));
    keyed!("Arc<String>", Arc<String>, |w: &String| Arc::new(w.clone()), String);
    keyed!("Rc<OsString>", Rc<OsString>, |w: &String| Rc::new(OsString::from(w)), OsString);
    keyed!("Box<CString>", Box<CString>, |w: &String| Box::new(CString::new(w.as_str()).expect("no zeros")), CString);
    keyed!("Box<Box<CStr>>", Box<Box<CStr>>, |w: &String| Box::new(CString::new(w.as_str()).expect("no zeros").into_boxed_c_str()), Box<CStr>);
    keyed!("Vec<char>", Vec<char>, |w: &String| w.chars().collect());
    keyed!("Rc<VecDeque<u8>>", Rc<VecDeque<u8>>, |w: &String| Rc::new(w.bytes().collect()), VecDeque<u8>);
    keyed!("BTreeMap", BTreeMap<usize, char>, |w: &String| w.chars().enumerate().collect());
    keyed!("Arc<BTreeSet>", Arc<BTreeSet<(usize, u8)>>, |w: &String| Arc::new(w.bytes().enumerate().collect()), BTreeSet<(usize, u8)>);
    keyed!("LinkedList", LinkedList<char>, |w: &String| w.chars().collect());
}

/// Len of something large takes no longer than of something small.
fn at_once<L: Len + ?Sized>(what: &str, l: &L, n: usize, mon: &mut Mon) {
    let best = (0..7)
        .map(|_| {
            let t = std::time::Instant::now();
            for _ in 0..100 {
                std::hint::black_box(len_of(std::hint::black_box(l)));
                std::hint::black_box(none_in(std::hint::black_box(l)));
            }
            t.elapsed()
        })
        .min()
        .expect("measured");
    check(what, l, n, mon);
    // counting the elements takes well over 10 us each time
    vassert!(best.as_micros() < 800, "{what}: Len of {n} elements takes {:?} each time", best / 200);
    mon.ev("lengths timed", 1);
    mon.max("us for 200 lengths, at best", best.as_secs_f64() * 1e6);
}

fn timed(rng: &mut Rng, mon: &mut Mon) {
    let n = rng.range(150_000, 200_000);
    mon.case(&("timed", n), true);
    mon.describe(|| format!("collections of {n}"));
    let v: Vec<u64> = (0..n as u64).collect();
    at_once("LinkedList", &v.iter().copied().collect::<LinkedList<_>>(), n, mon);
    at_once("VecDeque", &v.iter().copied().collect::<VecDeque<_>>(), n, mon);
    at_once("BinaryHeap", &v.iter().copied().collect::<BinaryHeap<_>>(), n, mon);
    at_once("BTreeMap", &v.iter().map(|x| (*x, *x)).collect::<BTreeMap<_, _>>(), n, mon);
    at_once("Rc<BTreeSet>", &Rc::new(v.iter().copied().collect::<BTreeSet<_>>()), n, mon);
    at_once("HashMap", &v.iter().map(|x| (*x, *x)).collect::<HashMap<_, _>>(), n, mon);
    at_once("Box<HashSet>", &Box::new(v.iter().copied().collect::<HashSet<_>>()), n, mon);
    at_once("slice", &v[..], n, mon);
    at_once("String", &"x".repeat(n), n, mon);
    at_once("OsString", &OsString::from("x".repeat(n)), n, mon);
    at_once("CommonSet", &CommonSet::<u64, usize>::from_vec(v.clone()), n, mon);
    at_once("IntegerRangeSet", &IntegerRangeSet::from_vec(v.clone()), n, mon);
    at_once("IntegerSet", &IntegerSet::<u64, u32>::from_vec(v.clone()), n, mon);
    at_once("FrozenSet", &FrozenSet::from_vec(v.clone()), n, mon);
    at_once("CommonMap", &CommonMap::<u64, u64, usize>::from_vec(v.iter().map(|x| (*x, *x)).collect()), n, mon);
    at_once("IntegerRangeMap", &IntegerRangeMap::from_vec(v.iter().map(|x| (*x, *x)).collect()), n, mon);
    at_once("Vec", &v, n, mon);
}

fn main() {
    run_cases(|i, rng, mon| match i % 4 {
        3 if i % 4000 == 43 => timed(rng, mon),
        0 => strings(rng, mon),
        1 => standard(rng, mon),
        2 => own(rng, mon),
        _ => lookups(rng, mon),
    });
}
