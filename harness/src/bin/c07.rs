//! C07: set algebra against the mathematical definitions, for every pair of implementations.

use std::collections::HashSet;
use std::fmt::Debug;

use frozen_collections_core::specialized_sets::Set;
use vh::algebra::{element_pairs, int_pair, list, str_pair, IntSet, PairJob, StrSet, TestSet};
use vh::hashers::Bh;
use vh::keys::Key;
use vh::maps::bounded;
use vh::rng::Rng;
use vh::run::{run_cases, Mon};
use vh::vassert;

struct Job<'a, T> {
    ma: HashSet<T>,
    mb: HashSet<T>,
    mon: &'a mut Mon,
}

fn exact<T: Key + Ord>(what: &str, seen: Vec<T>, want: &HashSet<T>) {
    let mut s = HashSet::new();
    for x in &seen {
        vassert!(want.contains(x), "{what}: {x:?} doesn't belong in the result");
        vassert!(s.insert(x.clone()), "{what}: {x:?} is in the result twice");
    }
    if s.len() != want.len() {
        let missing: HashSet<T> = want.difference(&s).cloned().collect();
        vh::vfail!("{what}: the result lacks {}", list(&missing));
    }
}

impl<T: Key + Ord + Debug> PairJob<T> for Job<'_, T> {
    fn run<A, B>(&mut self, na: &'static str, a: &A, nb: &'static str, b: &B)
    where
        A: TestSet<T>,
        B: TestSet<T>,
        for<'x> <A as Set<T>>::Iterator<'x>: Clone,
        for<'x> <B as Set<T>>::Iterator<'x>: Clone,
    {
        let (ma, mb) = (&self.ma, &self.mb);
        let union: HashSet<T> = ma.union(mb).cloned().collect();
        let inter: HashSet<T> = ma.intersection(mb).cloned().collect();
        let diff: HashSet<T> = ma.difference(mb).cloned().collect();
        let sym: HashSet<T> = ma.symmetric_difference(mb).cloned().collect();
        let cap = ma.len() + mb.len();
        let w = |op: &str| format!("{na} {op} {nb} of {} and {}", list(ma), list(mb));
        exact(&w("union"), bounded(a.union(b), cap).into_iter().cloned().collect(), &union);
        exact(&w("intersection"), bounded(a.intersection(b), cap).into_iter().cloned().collect(), &inter);
        exact(&w("difference"), bounded(a.difference(b), cap).into_iter().cloned().collect(), &diff);
        exact(&w("symmetric_difference"), bounded(a.symmetric_difference(b), cap).into_iter().cloned().collect(), &sym);
        if let Some([or, and, sub, xor]) = a.ops(b) {
            exact(&w("|"), or, &union);
            exact(&w("&"), and, &inter);
            exact(&w("-"), sub, &diff);
            exact(&w("^"), xor, &sym);
            self.mon.ev("operators checked", 4);
        }
        for (op, got, want) in [
            ("is_subset", a.is_subset(b), ma.is_subset(mb)),
            ("is_superset", a.is_superset(b), ma.is_superset(mb)),
            ("is_disjoint", a.is_disjoint(b), ma.is_disjoint(mb)),
        ] {
            vassert!(got == want, "{}: {got}, expected {want}", w(op));
            self.mon.ev(&format!("{op} = {want}"), 1);
        }
        self.mon.ev(&format!("{na} with {nb}"), 1);
        self.mon.ev("elements in results", (union.len() + inter.len() + diff.len() + sym.len()) as u64);
    }
}

fn case(i: u64, rng: &mut Rng, mon: &mut Mon) {
    macro_rules! go {
        ($t:ty, $s:ident, $pair:ident) => {{
            let (a, b, how) = element_pairs::<$t>(rng, 400);
            mon.describe(|| format!("{how}: {a:?} and {b:?}"));
            mon.case(&(how, &a, &b), !a.is_empty() && !b.is_empty());
            mon.ev(&format!("relation: {how}"), 1);
            mon.sample(3, || format!("{how}: {a:?} and {b:?}"));
            let (ma, mb): (HashSet<$t>, HashSet<$t>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
            // the same elements in several pairs of implementations
            let (ha, hb) = (Bh::any(rng), Bh::any(rng));
            for _ in 0..6 {
                let sa = $s::build(a.clone(), rng, ha.clone());
                let sb = $s::build(b.clone(), rng, hb.clone());
                $pair(&sa, &sb, &mut Job { ma: ma.clone(), mb: mb.clone(), mon });
                $pair(&sb, &sa, &mut Job { ma: mb.clone(), mb: ma.clone(), mon });
            }
        }};
    }
    if i % 2 == 0 {
        go!(u32, IntSet, int_pair);
    } else {
        go!(String, StrSet, str_pair);
    }
}

fn main() {
    run_cases(case);
}
