//! C12: every key and value is dropped exactly once, whatever happens to the collections.

use vh::catalog::{tracked_map, tracked_set, MapJob, MkVal, SetJob};
use vh::checks::{describe_case, fresh_entries, with_repeats};
use vh::hashers::Bh;
use vh::keys::{gen_size, Key};
use vh::maps::{MapDyn, MapSpec};
use vh::rng::Rng;
use vh::run::{caught, run_cases, take_last_panic, Mon};
use vh::sets::{SetDyn, SetSpec, WAYS};
use vh::tracked::{self, alive_since, arm, disarm, heap, verify, Call};
use vh::vassert;

#[global_allocator]
static ALLOC: tracked::Counting = tracked::Counting;

struct Job;

fn size(rng: &mut Rng) -> usize {
    if rng.chance(4) {
        gen_size(rng, 1100)
    } else {
        rng.below(40)
    }
}

/// Everything created since `from` is gone, and so is the memory.
fn nothing_left(what: &str, from: u64, before: (isize, isize)) {
    verify(what);
    let left = alive_since(from);
    vassert!(left == 0, "{what}: {left} keys and values were never dropped");
    let now = heap();
    vassert!(now == before, "{what}: {} bytes in {} blocks were not freed", now.0 - before.0, now.1 - before.1);
}

/// Some of the calls that clone panic.
fn fault_clones(rng: &mut Rng, n: usize) -> bool {
    let fault = rng.chance(2);
    if fault {
        arm(&[Call::Clone, Call::HasherClone], 1 + rng.below(2 * n + 3) as u64);
    }
    fault
}

const FAULTS: [Call; 9] = [Call::Hash, Call::Eq, Call::Len, Call::Slice, Call::Build, Call::Finish, Call::Clone, Call::HasherClone, Call::Produce];

#[derive(Default)]
struct Seen {
    panics: u64,
    faults: u64,
    clones: u64,
    consumed: u64,
    ways: u64,
    writes: u64,
    checks: u64,
    failed_clones: u64,
}

impl Seen {
    fn tell(&self, mon: &mut Mon) {
        mon.ev("constructions that panicked", self.panics);
        mon.ev("of them by injected panics", self.faults);
        mon.ev("clones made", self.clones);
        mon.ev("clones that panicked", self.failed_clones);
        mon.ev("sets consumed, also part way", self.consumed);
        mon.ev("sets consumed by other ways", self.ways);
        mon.ev("values overwritten", self.writes);
        mon.ev("censuses taken", self.checks);
    }
}

impl MapJob for Job {
    fn run<K: Key, V: MkVal>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[MapSpec<K, V>]) {
        tracked::reset();
        take_last_panic();
        let n = size(rng);
        let (keys, shape) = K::gen(rng, n);
        let per = usize::from(K::registered()) + usize::from(V::registered());
        for _ in 0..2 {
            let spec = rng.pick(specs);
            if spec.name == "ScanningMap" && keys.len() > 300 {
                continue;
            }
            let fits = (spec.fits)(&keys);
            let bh = Bh::any(rng);
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, K::NAME, &keys), keys.len() >= 2);
            mon.sample(3, || describe_case(spec.name, &keys, shape, &bh));
            mon.ev(spec.name, 1);
            let mut seen = Seen::default();
            let what = spec.name;
            let fault = rng.chance(4);
            let heap0 = heap();
            let from = tracked::next_id();
            {
                let mut e = fresh_entries::<K, V>(&keys, 5);
                if spec.facade && rng.chance(2) {
                    with_repeats(rng, &mut e, 3);
                }
                if fault {
                    arm(&FAULTS, 1 + rng.below(4 * e.len() + 3) as u64);
                }
                let r = caught(|| (spec.build)(e, rng, bh));
                let (_, fired) = disarm();
                seen.faults += u64::from(fired);
                match r {
                    Err(msg) => {
                        vassert!(fired || !fits, "{what}: construction panics: {msg}");
                        drop(take_last_panic());
                        seen.panics += 1;
                        drop(msg);
                        verify(&format!("{what} whose construction panicked"));
                    }
                    Ok(m) => {
                        let census = |what: &str, all: &[Box<dyn MapDyn<K, V>>]| {
                            verify(what);
                            let want: usize = all.iter().map(|m| m.d_len() * per).sum();
                            let got = alive_since(from);
                            vassert!(got == want, "{what}: {got} keys and values exist, {want} are held by {} collections", all.len());
                            for m in all {
                                for (k, v) in m.d_iter() {
                                    vassert!(!K::registered() || tracked::is_alive(k.instance()), "{what}: holds a key that was dropped");
                                    vassert!(!V::registered() || tracked::is_alive(v.instance()), "{what}: holds a value that was dropped");
                                }
                            }
                        };
                        let mut all = vec![m];
                        census(&format!("{what} after construction"), &all);
                        seen.checks += 1;
                        for _ in 0..rng.below(7) {
                            let i = rng.below(all.len());
                            match rng.below(6) {
                                0 => {
                                    fault_clones(rng, all[i].d_len());
                                    let r = caught(|| all[i].d_clone());
                                    let (_, fired) = disarm();
                                    match r {
                                        Ok(c) => all.push(c),
                                        Err(msg) => {
                                            vassert!(fired, "{what}: cloning panics: {msg}");
                                            drop(take_last_panic());
                                            seen.failed_clones += 1;
                                        }
                                    }
                                    seen.clones += 1;
                                }
                                1 => {
                                    let j = rng.below(all.len());
                                    if i != j {
                                        let o = all[j].d_clone();
                                        fault_clones(rng, o.d_len());
                                        let target = &mut all[i];
                                        let r = caught(|| target.d_clone_from(&*o));
                                        let (_, fired) = disarm();
                                        if let Err(msg) = r {
                                            vassert!(fired, "{what}: cloning over another panics: {msg}");
                                            drop(take_last_panic());
                                            seen.failed_clones += 1;
                                        }
                                        seen.clones += 2;
                                    }
                                }
                                2 => {
                                    for (x, k) in keys.iter().enumerate().take(20) {
                                        if let Some(v) = all[i].d_get_mut(k) {
                                            *v = V::mk(x as u64);
                                            seen.writes += 1;
                                        }
                                    }
                                }
                                3 => {
                                    let ks: Vec<&K> = keys.iter().take(rng.below(6)).collect();
                                    if let Some(Some(vs)) = all[i].d_many(&ks) {
                                        for v in vs {
                                            *v = V::mk(1);
                                            seen.writes += 1;
                                        }
                                    }
                                }
                                4 if all.len() > 1 => drop(all.swap_remove(i)),
                                _ => {
                                    for k in keys.iter().take(10) {
                                        let _ = (all[i].d_get(k).is_some(), all[i].d_get_kv(k).is_some(), all[i].d_contains(k));
                                    }
                                }
                            }
                            census(&format!("{what} in use"), &all);
                            seen.checks += 1;
                        }
                        rng.shuffle(&mut all);
                        while all.pop().is_some() {
                            census(&format!("{what} being dropped"), &all);
                        }
                    }
                }
            }
            nothing_left(what, from, heap0);
            seen.tell(mon);
        }
    }
}

impl SetJob for Job {
    fn run<T: Key>(&self, rng: &mut Rng, mon: &mut Mon, specs: &[SetSpec<T>]) {
        tracked::reset();
        take_last_panic();
        let n = size(rng);
        let (keys, shape) = T::gen(rng, n);
        let per = usize::from(T::registered());
        for _ in 0..2 {
            let spec = rng.pick(specs);
            if spec.name == "ScanningSet" && keys.len() > 300 {
                continue;
            }
            let fits = (spec.fits)(&keys);
            let bh = Bh::any(rng);
            mon.describe(|| describe_case(spec.name, &keys, shape, &bh));
            mon.case(&(spec.name, T::NAME, &keys), keys.len() >= 2);
            mon.ev(spec.name, 1);
            let mut seen = Seen::default();
            let what = spec.name;
            let fault = rng.chance(4);
            let heap0 = heap();
            let from = tracked::next_id();
            {
                let mut pairs = fresh_entries::<T, ()>(&keys, 0);
                if spec.facade && rng.chance(2) {
                    with_repeats(rng, &mut pairs, 0);
                }
                let e: Vec<T> = pairs.into_iter().map(|x| x.0).collect();
                if fault {
                    arm(&FAULTS, 1 + rng.below(4 * e.len() + 3) as u64);
                }
                let r = caught(|| (spec.build)(e, rng, bh));
                let (_, fired) = disarm();
                seen.faults += u64::from(fired);
                match r {
                    Err(msg) => {
                        vassert!(fired || !fits, "{what}: construction panics: {msg}");
                        drop(take_last_panic());
                        seen.panics += 1;
                        drop(msg);
                        verify(&format!("{what} whose construction panicked"));
                    }
                    Ok(s) => {
                        let census = |what: &str, all: &[Box<dyn SetDyn<T>>], loose: usize| {
                            verify(what);
                            let want: usize = (all.iter().map(|m| m.d_len()).sum::<usize>() + loose) * per;
                            let got = alive_since(from);
                            vassert!(got == want, "{what}: {got} values exist, {want} are held by {} collections", all.len());
                            for m in all {
                                for k in m.d_iter() {
                                    vassert!(!T::registered() || tracked::is_alive(k.instance()), "{what}: holds a value that was dropped");
                                }
                            }
                        };
                        let mut all = vec![s];
                        census(&format!("{what} after construction"), &all, 0);
                        seen.checks += 1;
                        for _ in 0..rng.below(7) {
                            let i = rng.below(all.len());
                            match rng.below(7) {
                                0 => {
                                    fault_clones(rng, all[i].d_len());
                                    let r = caught(|| all[i].d_clone());
                                    let (_, fired) = disarm();
                                    match r {
                                        Ok(c) => all.push(c),
                                        Err(msg) => {
                                            vassert!(fired, "{what}: cloning panics: {msg}");
                                            drop(take_last_panic());
                                            seen.failed_clones += 1;
                                        }
                                    }
                                    seen.clones += 1;
                                }
                                1 => {
                                    let j = rng.below(all.len());
                                    if i != j {
                                        let o = all[j].d_clone();
                                        fault_clones(rng, o.d_len());
                                        let target = &mut all[i];
                                        let r = caught(|| target.d_clone_from(&*o));
                                        let (_, fired) = disarm();
                                        if let Err(msg) = r {
                                            vassert!(fired, "{what}: cloning over another panics: {msg}");
                                            drop(take_last_panic());
                                            seen.failed_clones += 1;
                                        }
                                        seen.clones += 2;
                                    }
                                }
                                4 | 5 => {
                                    let s = if all.len() > 1 { all.swap_remove(i) } else { all[i].d_clone() };
                                    let skip = rng.below(s.d_len() + 2);
                                    let way = rng.below(WAYS);
                                    if let Some(v) = s.d_consume_by(skip, way) {
                                        drop(take_last_panic());
                                        census(&format!("{what} consumed by way {way} after {skip}"), &all, v.len());
                                        seen.ways += 1;
                                    }
                                }
                                2 if all.len() > 1 => {
                                    let s = all.swap_remove(i);
                                    let n = s.d_len();
                                    let limit = rng.below(n + 2);
                                    if let Some(v) = s.d_consume(limit) {
                                        vassert!(v.len() == limit.min(n), "{what}: consuming {limit} of {n} values yields {}", v.len());
                                        census(&format!("{what} consumed in part"), &all, v.len());
                                    }
                                    seen.consumed += 1;
                                }
                                3 if all.len() > 1 => {
                                    let s = all.swap_remove(i);
                                    let n = s.d_len();
                                    let (skip, limit) = (rng.below(n + 2), rng.below(n + 2));
                                    if let Some((a, b)) = s.d_consume_cloned(skip, limit) {
                                        census(&format!("{what} consumed in part, twice"), &all, a.len() + b.len());
                                        vassert!(a == b, "{what}: an iterator and its clone yield different values");
                                    }
                                    seen.consumed += 1;
                                }
                                _ => {
                                    for k in keys.iter().take(10) {
                                        let _ = (all[i].d_get(k).is_some(), all[i].d_contains(k));
                                    }
                                }
                            }
                            census(&format!("{what} in use"), &all, 0);
                            seen.checks += 1;
                        }
                        rng.shuffle(&mut all);
                        while let Some(s) = all.pop() {
                            if rng.chance(3) {
                                let limit = rng.below(s.d_len() + 2);
                                drop(s.d_consume(limit));
                                seen.consumed += 1;
                            } else if rng.chance(3) {
                                let skip = rng.below(s.d_len() + 2);
                                drop(s.d_consume_by(skip, rng.below(WAYS)));
                                drop(take_last_panic());
                                seen.ways += 1;
                            } else {
                                drop(s);
                            }
                            census(&format!("{what} being dropped"), &all, 0);
                        }
                    }
                }
            }
            nothing_left(what, from, heap0);
            seen.tell(mon);
        }
    }
}

fn main() {
    run_cases(|_, rng, mon| if rng.chance(3) { tracked_set(&Job, rng, mon) } else { tracked_map(&Job, rng, mon) });
}
