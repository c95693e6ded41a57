//! C15: many threads reading one collection.

use std::cell::Cell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, MutexGuard};

use frozen_collections_core::facades::{FrozenMap, FrozenSet};
use frozen_collections_core::specialized_maps::{self, CommonMap, IntegerMap, IntegerRangeMap, LeftSliceMap, LengthMap, RightSliceMap, ScanningMap};
use frozen_collections_core::specialized_sets::{self, CommonSet, IntegerRangeSet, IntegerSet, LeftSliceSet, LengthSet, RightSliceSet, ScanningSet, Set};
use vh::algebra::{element_pairs, int_pair, str_pair, IntSet, PairJob, StrSet, TestSet};
use vh::catalog::{every_map, every_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, entries};
use vh::hashers::{Bh, DAWDLE};
use vh::keys::Key;
use vh::maps::{MapDyn, MapSpec};
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::sets::{SetDyn, SetSpec};
use vh::vassert;

// ---------------------------------------------------------------------------------------------
// which collections may be shared

struct Probe<T: ?Sized>(PhantomData<T>);
trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Otherwise for Probe<T> {}
struct SyncProbe<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Otherwise for SyncProbe<T> {}
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> SyncProbe<T> {
    const SYNC: bool = true;
}

type Both = u64;
type SendOnly = Cell<u64>;
type SyncOnly = MutexGuard<'static, u64>;
type Neither = Rc<u64>;

trait Part {
    const NAME: &'static str;
    const S: (bool, bool);
}
impl Part for Both {
    const NAME: &'static str = "Send + Sync";
    const S: (bool, bool) = (true, true);
}
impl Part for SendOnly {
    const NAME: &'static str = "Send";
    const S: (bool, bool) = (true, false);
}
impl Part for SyncOnly {
    const NAME: &'static str = "Sync";
    const S: (bool, bool) = (false, true);
}
impl Part for Neither {
    const NAME: &'static str = "neither";
    const S: (bool, bool) = (false, false);
}

fn parts(p: &[(bool, bool)]) -> (bool, bool) {
    (p.iter().all(|x| x.0), p.iter().all(|x| x.1))
}

macro_rules! shared {
    ($mon:expr, $t:ty, $($p:ty),*) => {{
        let got = (Probe::<$t>::SEND, SyncProbe::<$t>::SYNC);
        let want = parts(&[$(<$p as Part>::S),*]);
        let of = [$(<$p as Part>::NAME),*];
        vassert!(got.0 == want.0, "{} with parts that are {of:?} is{} Send", stringify!($t), if got.0 { "" } else { " not" });
        vassert!(got.1 == want.1, "{} with parts that are {of:?} is{} Sync", stringify!($t), if got.1 { "" } else { " not" });
        $mon.ev("auto traits probed", 2);
    }};
}
/// What lends references to parts must not leave the thread unless they are Sync.
macro_rules! lends {
    ($mon:expr, $t:ty, $($p:ty),*) => {{
        let got = (Probe::<$t>::SEND, SyncProbe::<$t>::SYNC);
        let want = parts(&[$(<$p as Part>::S),*]).1;
        vassert!(want || !got.0 && !got.1, "{} of parts that aren't Sync may leave the thread", stringify!($t));
        $mon.ev("auto traits probed", 2);
    }};
}
macro_rules! each {
    ($m:ident, $mon:expr $(, $pre:ty)*) => {
        $m!($mon, $($pre,)* Both);
        $m!($mon, $($pre,)* SendOnly);
        $m!($mon, $($pre,)* SyncOnly);
        $m!($mon, $($pre,)* Neither);
    };
}
macro_rules! map3 {
    ($mon:expr, $k:ty, $v:ty, $bh:ty) => {
        shared!($mon, FrozenMap<$k, $v, $bh>, $k, $v, $bh);
        shared!($mon, CommonMap<$k, $v, u8, $bh>, $k, $v, $bh);
        shared!($mon, LeftSliceMap<$k, $v, u16, $bh>, $k, $v, $bh);
        shared!($mon, RightSliceMap<$k, $v, u32, $bh>, $k, $v, $bh);
    };
}
macro_rules! map2 {
    ($mon:expr, $k:ty, $v:ty) => {
        shared!($mon, IntegerMap<$k, $v, u8>, $k, $v);
        shared!($mon, IntegerRangeMap<$k, $v>, $k, $v);
        shared!($mon, LengthMap<$k, $v, u8>, $k, $v);
        shared!($mon, ScanningMap<$k, $v>, $k, $v);
        lends!($mon, specialized_maps::Iter<'static, $k, $v>, $k, $v);
        lends!($mon, specialized_maps::Keys<'static, $k, $v>, $k);
        lends!($mon, specialized_maps::Values<'static, $k, $v>, $v);
        each!(map3, $mon, $k, $v);
    };
}
macro_rules! map1 {
    ($mon:expr, $k:ty) => {
        each!(map2, $mon, $k);
        shared!($mon, IntegerSet<$k, u8>, $k);
        shared!($mon, IntegerRangeSet<$k>, $k);
        shared!($mon, LengthSet<$k, u8>, $k);
        shared!($mon, ScanningSet<$k>, $k);
        shared!($mon, specialized_sets::IntoIter<$k>, $k);
        lends!($mon, specialized_sets::Iter<'static, $k>, $k);
        each!(set2, $mon, $k);
    };
}
macro_rules! set2 {
    ($mon:expr, $k:ty, $bh:ty) => {
        shared!($mon, FrozenSet<$k, $bh>, $k, $bh);
        shared!($mon, CommonSet<$k, u8, $bh>, $k, $bh);
        shared!($mon, LeftSliceSet<$k, u16, $bh>, $k, $bh);
        shared!($mon, RightSliceSet<$k, u32, $bh>, $k, $bh);
    };
}

fn auto_traits(mon: &mut Mon) {
    mon.describe(|| "auto traits".to_string());
    mon.case(&"auto traits", true);
    each!(map1, mon);
}

// ---------------------------------------------------------------------------------------------
// schedules

static CLOCK: AtomicU64 = AtomicU64::new(0);

/// What is handed to threads. Whether the library allows it is for `auto_traits` to say; that
/// nothing goes wrong is for the race detectors.
struct Loan<T>(T);
// SAFETY: all keys, values and hashers used here are Send and Sync.
unsafe impl<T> Sync for Loan<T> {}
// SAFETY: as above
unsafe impl<T> Send for Loan<T> {}
impl<T> Loan<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

struct Log(Vec<(u64, u8)>, u8);
impl Log {
    fn step(&mut self) {
        self.0.push((CLOCK.fetch_add(1, Ordering::Relaxed), self.1));
    }
}

fn small() -> bool {
    cfg!(miri)
}

fn steps() -> usize {
    if small() {
        6
    } else {
        60
    }
}

fn threads(rng: &mut Rng) -> usize {
    if small() {
        2 + rng.below(2)
    } else {
        2 + rng.below(5)
    }
}

/// Runs `f` in several threads at once; returns what they return, in order of thread.
fn together<R>(n: usize, rng: &mut Rng, mon: &mut Mon, seen: &mut HashSet<u64>, f: impl Fn(&mut Rng, &mut Log) -> R) -> Vec<R> {
    let barrier = Barrier::new(n);
    let rngs: Vec<Rng> = (0..n).map(|_| rng.fork()).collect();
    let dawdle = *rng.pick(&[0u32, 0, 4, 16, 64]);
    let f = Loan(f);
    let mut out = Vec::new();
    let mut log: Vec<(u64, u8)> = Vec::new();
    std::thread::scope(|s| {
        let (f, barrier) = (&f, &barrier);
        let hs: Vec<_> = rngs
            .into_iter()
            .enumerate()
            .map(|(i, r)| {
                s.spawn(move || {
                    let mut r = r;
                    DAWDLE.set(dawdle);
                    let mut log = Log(Vec::new(), i as u8);
                    barrier.wait();
                    let x = (f.get())(&mut r, &mut log);
                    Loan((x, log.0))
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(x) => {
                    let (x, l) = x.take();
                    out.push(x);
                    log.extend(l);
                }
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    });
    log.sort_unstable();
    let mut h = 0u64;
    let mut switches = 0;
    for w in log.windows(2) {
        switches += u64::from(w[0].1 != w[1].1);
    }
    for x in &log {
        h = vh::rng::mix(h ^ u64::from(x.1));
    }
    mon.ev("steps of readers", log.len() as u64);
    mon.ev("switches between readers", switches);
    mon.ev("sets of readers", 1);
    if seen.insert(h) && switches >= n as u64 {
        mon.ev("distinct interleavings", 1);
    }
    out
}

// ---------------------------------------------------------------------------------------------

struct Job<'a>(std::cell::RefCell<&'a mut HashSet<u64>>);

fn read_map<K: Key, V: MkVal>(what: &str, m: &dyn MapDyn<K, V>, other: &dyn MapDyn<K, V>, model: &HashMap<K, V>, probes: &[K], rng: &mut Rng, log: &mut Log) -> Vec<(K, V)> {
    let n = model.len();
    let mut order: Option<Vec<(K, V)>> = None;
    let ordered = |v: Vec<(&K, &V)>, order: &mut Option<Vec<(K, V)>>| {
        vassert!(v.len() == n && v.iter().all(|(k, x)| model.get(k) == Some(*x)), "{what}: a thread visits entries {v:?}");
        match order {
            None => *order = Some(v.into_iter().map(|(k, x)| (k.clone(), x.clone())).collect()),
            Some(o) => vassert!(o.iter().zip(&v).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1), "{what}: a thread sees two orders, {o:?} and {v:?}"),
        }
    };
    for _ in 0..steps() {
        log.step();
        let k = rng.pick(probes);
        let want = model.get(k);
        match rng.below(20) {
            0..=4 => vassert!(m.d_get(k) == want, "{what}: a thread gets {:?} for {k:?}, expected {want:?}", m.d_get(k)),
            5..=7 => vassert!(m.d_contains(k) == want.is_some(), "{what}: a thread is told that {k:?} is {}", if want.is_some() { "absent" } else { "present" }),
            8 | 9 => {
                let kv = m.d_get_kv(k);
                vassert!(kv.map(|x| x.1) == want && kv.is_none_or(|x| x.0 == k), "{what}: a thread gets entry {kv:?} for {k:?}, expected value {want:?}");
            }
            10 | 11 => {
                if let Some(w) = want {
                    vassert!(m.d_index(k.clone()) == w, "{what}: a thread indexes {k:?} and gets {:?}, expected {w:?}", m.d_index(k.clone()));
                }
            }
            12 => ordered(m.d_iter(), &mut order),
            13 => ordered(m.d_ref_iter(), &mut order),
            14 => {
                let (a, b) = (m.d_keys(), m.d_values());
                ordered(a.into_iter().zip(b).collect(), &mut order);
            }
            15 => vassert!(m.d_len() == n && m.d_is_empty() == (n == 0), "{what}: a thread sees len {}, expected {n}", m.d_len()),
            16 => {
                let d = m.d_debug().0;
                vassert!(d.matches(':').count() >= n, "{what}: a thread prints {d}");
            }
            17 => {
                let c = m.d_clone();
                vassert!(c.d_get(k) == want && c.d_len() == n, "{what}: a thread's clone has {:?} for {k:?}, expected {want:?}", c.d_get(k));
                ordered(c.d_iter(), &mut order);
            }
            18 => {
                if let Some((a, b)) = m.d_eq(other) {
                    vassert!(a && !b, "{what}: a thread finds equal collections unequal");
                }
            }
            _ => {
                if let Some((a, b)) = m.d_eq(m) {
                    vassert!(a && !b, "{what}: a thread finds the collection unequal to itself");
                }
            }
        }
    }
    log.step();
    ordered(m.d_iter(), &mut order);
    order.unwrap_or_default()
}

fn gen<K: Key>(rng: &mut Rng) -> (Vec<K>, &'static str, Vec<K>) {
    let n = if small() { rng.range(0, 9) } else { *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 12, 20, 60, 200]) };
    let (keys, shape) = K::gen(rng, n);
    let mut probes = K::probes(rng, &keys, 20);
    rng.shuffle(&mut probes);
    probes.truncate(20);
    probes.extend(keys.iter().take(20).cloned());
    (keys, shape, probes)
}

impl MapJob for Job<'_> {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        let (keys, shape, probes) = gen::<K>(rng);
        if probes.is_empty() {
            return;
        }
        let fitting: Vec<&MapSpec<K, V>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let spec = *rng.pick(&fitting);
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&(spec.name, K::NAME, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
        let e = entries::<K, V>(&keys, 1);
        let model: HashMap<K, V> = e.iter().cloned().collect();
        let m = (spec.build)(e.clone(), rng, bh.clone());
        let other = (spec.build)(e, rng, bh);
        let n = threads(rng);
        let shared = Loan((m, other, model, probes));
        let orders = together(n, rng, mon, &mut self.0.borrow_mut(), |r, log| {
            let (m, o, model, probes) = shared.get();
            read_map(spec.name, &**m, &**o, model, probes, r, log)
        });
        for o in &orders[1..] {
            vassert!(*o == orders[0], "{}: threads see different orders, {:?} and {o:?}", spec.name, orders[0]);
        }
        mon.ev("collections read by many threads", 1);
        // ownership passes to a thread, which drops it and hands back a clone
        let (m, other, model, probes) = shared.take();
        let gift = Loan(m);
        let back = std::thread::scope(|s| {
            s.spawn(move || {
                let m = gift.take();
                Loan(m.d_clone())
            })
            .join()
        });
        let c = match back {
            Ok(x) => x.take(),
            Err(p) => std::panic::resume_unwind(p),
        };
        let mut log = Log(Vec::new(), 0);
        let o = read_map(spec.name, &*c, &*other, &model, &probes, rng, &mut log);
        vassert!(o == orders[0], "{}: a clone made by another thread has another order", spec.name);
        mon.ev("collections handed over", 1);
    }
}

impl SetJob for Job<'_> {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        let (keys, shape, probes) = gen::<T>(rng);
        if probes.is_empty() {
            return;
        }
        let fitting: Vec<&SetSpec<T>> = specs.iter().filter(|s| (s.fits)(&keys)).collect();
        let spec = *rng.pick(&fitting);
        let bh = Bh::any(rng);
        mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
        mon.case(&("set", spec.name, T::NAME, &keys), keys.len() >= 2);
        mon.ev(spec.name, 1);
        let model: HashSet<T> = keys.iter().cloned().collect();
        let s = (spec.build)(keys.clone(), rng, bh.clone());
        let other = (spec.build)(keys, rng, bh);
        let n = threads(rng);
        let shared = Loan((s, other, model, probes));
        let what = spec.name;
        let orders = together(n, rng, mon, &mut self.0.borrow_mut(), |r, log| {
            let (s, other, model, probes) = shared.get();
            read_set(what, &**s, &**other, model, probes, r, log)
        });
        for o in &orders[1..] {
            vassert!(*o == orders[0], "{what}: threads see different orders, {:?} and {o:?}", orders[0]);
        }
        mon.ev("collections read by many threads", 1);
    }
}

fn read_set<T: Key>(what: &str, s: &dyn SetDyn<T>, other: &dyn SetDyn<T>, model: &HashSet<T>, probes: &[T], rng: &mut Rng, log: &mut Log) -> Vec<T> {
    let n = model.len();
    let mut order: Option<Vec<T>> = None;
    let ordered = |v: Vec<&T>, order: &mut Option<Vec<T>>| {
        vassert!(v.len() == n && v.iter().all(|k| model.contains(*k)), "{what}: a thread visits {v:?}");
        match order {
            None => *order = Some(v.into_iter().cloned().collect()),
            Some(o) => vassert!(o.iter().zip(&v).all(|(a, b)| a == *b), "{what}: a thread sees two orders, {o:?} and {v:?}"),
        }
    };
    for _ in 0..steps() {
        log.step();
        let k = rng.pick(probes);
        let want = model.contains(k);
        match rng.below(12) {
            0..=3 => vassert!(s.d_contains(k) == want, "{what}: a thread is told that {k:?} is {}", if want { "absent" } else { "present" }),
            4 => vassert!(s.d_contains_trait(k) == want, "{what}: a thread is told that {k:?} is {}", if want { "absent" } else { "present" }),
            5 => vassert!(s.d_get(k) == want.then_some(k), "{what}: a thread gets {:?} for {k:?}", s.d_get(k)),
            6 => ordered(s.d_iter(), &mut order),
            7 => ordered(s.d_ref_iter(), &mut order),
            8 => ordered(s.d_trait_iter(), &mut order),
            9 => vassert!(s.d_len() == n && s.d_is_empty() == (n == 0), "{what}: a thread sees len {}, expected {n}", s.d_len()),
            10 => {
                let c = s.d_clone();
                vassert!(c.d_contains(k) == want && c.d_len() == n, "{what}: a thread's clone is wrong about {k:?}");
                ordered(c.d_iter(), &mut order);
                if let Some(v) = c.d_consume(n + 1) {
                    vassert!(v.len() == n && v.iter().all(|k| model.contains(k)), "{what}: a thread consumes its clone and finds {v:?}");
                }
            }
            _ => {
                for o in [s, other] {
                    if let Some((a, b)) = s.d_eq(o) {
                        vassert!(a && !b, "{what}: a thread finds equal collections unequal");
                    }
                }
            }
        }
    }
    log.step();
    ordered(s.d_iter(), &mut order);
    order.unwrap_or_default()
}

struct Ops<'a, T> {
    ma: &'a BTreeSet<T>,
    mb: &'a BTreeSet<T>,
    rng: &'a mut Rng,
    log: &'a mut Log,
}

impl<T: Key + Ord + Debug> PairJob<T> for Ops<'_, T> {
    fn run<A, B>(&mut self, na: &'static str, a: &A, nb: &'static str, b: &B)
    where
        A: TestSet<T>,
        B: TestSet<T>,
        for<'x> <A as Set<T>>::Iterator<'x>: Clone,
        for<'x> <B as Set<T>>::Iterator<'x>: Clone,
    {
        let (ma, mb) = (self.ma, self.mb);
        let [u, i, d, x]: [BTreeSet<T>; 4] = [ma | mb, ma & mb, ma - mb, ma ^ mb];
        fn same<'x, T: Key + Ord>(what: &str, seen: impl Iterator<Item = &'x T>, want: &BTreeSet<T>) {
            let v: Vec<&T> = seen.take(want.len() + 1).collect();
            let s: BTreeSet<&T> = v.iter().copied().collect();
            vassert!(v.len() == want.len() && s.into_iter().eq(want.iter()), "a thread finds {what} to be {v:?}, expected {want:?}");
        }
        for _ in 0..if small() { 2 } else { 8 } {
            self.log.step();
            let w = |op: &str| format!("{na} {op} {nb}");
            match self.rng.below(7) {
                0 => same(&w("union"), a.union(b), &u),
                1 => same(&w("intersection"), a.intersection(b), &i),
                2 => same(&w("difference"), a.difference(b), &d),
                3 => same(&w("symmetric_difference"), a.symmetric_difference(b), &x),
                4 => {
                    if let Some([o1, o2, o3, o4]) = a.ops(b) {
                        same(&w("|"), o1.iter(), &u);
                        same(&w("&"), o2.iter(), &i);
                        same(&w("-"), o3.iter(), &d);
                        same(&w("^"), o4.iter(), &x);
                    }
                }
                5 => {
                    if let Some((e, ne)) = a.eq_any(b) {
                        vassert!(e == (ma == mb) && ne != e, "a thread finds {} = {e}, {ne}", w("=="));
                    }
                }
                _ => {
                    let got = (a.is_subset(b), a.is_superset(b), a.is_disjoint(b));
                    let want = (ma.is_subset(mb), ma.is_superset(mb), ma.is_disjoint(mb));
                    vassert!(got == want, "a thread finds {} (subset, superset, disjoint) {got:?}, expected {want:?}", w("related to"));
                }
            }
        }
    }
}

fn operations(rng: &mut Rng, mon: &mut Mon, seen: &mut HashSet<u64>) {
    macro_rules! go {
        ($t:ty, $s:ident, $pair:ident) => {{
            let (a, b, how) = element_pairs::<$t>(rng, if small() { 6 } else { 120 });
            mon.describe(|| format!("set operations in threads, {how}: {a:?} and {b:?}"));
            mon.case(&("operations", how, &a, &b), !a.is_empty() && !b.is_empty());
            let (ma, mb): (BTreeSet<$t>, BTreeSet<$t>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
            let (ha, hb) = (Bh::any(rng), Bh::any(rng));
            let sa = $s::build(a, rng, ha);
            let sb = $s::build(b, rng, hb);
            let n = threads(rng);
            let shared = Loan((sa, sb, ma, mb));
            together(n, rng, mon, seen, |r, log| {
                let (sa, sb, ma, mb) = shared.get();
                $pair(sa, sb, &mut Ops { ma, mb, rng: r, log });
                $pair(sb, sa, &mut Ops { ma: mb, mb: ma, rng: r, log });
            });
            mon.ev("pairs of sets read by many threads", 1);
        }};
    }
    if rng.chance(2) {
        go!(u32, IntSet, int_pair);
    } else {
        go!(String, StrSet, str_pair);
    }
}

fn main() {
    let mut seen = HashSet::new();
    run_cases(move |i, rng, mon| match i % 8 {
        _ if i < 8 && !small() => auto_traits(mon),
        0 | 1 => operations(rng, mon, &mut seen),
        2..=4 => every_map(&Job(std::cell::RefCell::new(&mut seen)), rng, mon),
        5 => vh::catalog::facade_map(&Job(std::cell::RefCell::new(&mut seen)), rng, mon),
        _ => every_set(&Job(std::cell::RefCell::new(&mut seen)), rng, mon),
    });
}
