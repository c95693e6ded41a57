//! One hasher type with many personalities, and counters for what the code under test does with it.

use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hasher};

use crate::rng::{mix, Rng};
use crate::tracked::{hasher_lie, tick, Call};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Sip,
    Mixed,
    Const(u64),
    Mask(u64),
    Shl(u32),
    Ident,
    /// arithmetic: mixed hash modulo m, times k
    Step(u64, u64),
}

thread_local! {
    pub static BUILDS: Cell<u64> = const { Cell::new(0) };
    pub static WRITES: Cell<u64> = const { Cell::new(0) };
    pub static BYTES: Cell<u64> = const { Cell::new(0) };
    pub static FINISHES: Cell<u64> = const { Cell::new(0) };
    pub static LAST_TAG: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    /// how often user code dawdles: once in so many calls
    pub static DAWDLE: Cell<u32> = const { Cell::new(0) };
    static CALLS: Cell<u32> = const { Cell::new(0) };
}

/// Lets other threads get ahead now and then, in the middle of what the code under test does.
#[inline]
pub fn pause() {
    let d = DAWDLE.get();
    if d != 0 {
        let c = CALLS.get().wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        CALLS.set(c);
        if (c >> 8) % d == 0 {
            if c & 0x80 == 0 {
                std::thread::yield_now();
            } else {
                for _ in 0..(c >> 24) {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct HashCounts {
    pub builds: u64,
    pub writes: u64,
    pub bytes: u64,
    pub finishes: u64,
}

pub fn reset_counts() {
    BUILDS.set(0);
    WRITES.set(0);
    BYTES.set(0);
    FINISHES.set(0);
}

pub fn counts() -> HashCounts {
    HashCounts {
        builds: BUILDS.get(),
        writes: WRITES.get(),
        bytes: BYTES.get(),
        finishes: FINISHES.get(),
    }
}

/// A deterministic `BuildHasher`.
#[derive(Debug, PartialEq, Eq)]
pub struct Bh {
    pub mode: Mode,
    pub seed: u64,
    pub tag: u64,
}

impl Clone for Bh {
    fn clone(&self) -> Self {
        tick(Call::HasherClone);
        Bh { mode: self.mode, seed: self.seed, tag: self.tag }
    }
}

impl Default for Bh {
    fn default() -> Self {
        Bh { mode: Mode::Mixed, seed: 0, tag: 0 }
    }
}

impl Bh {
    pub fn new(mode: Mode, seed: u64) -> Self {
        Bh { mode, seed, tag: 0 }
    }
    pub fn good(rng: &mut Rng) -> Self {
        Bh::new(if rng.chance(2) { Mode::Sip } else { Mode::Mixed }, rng.next())
    }
    /// Any hasher that doesn't make `n` keys collide so much that looking up all of them takes forever.
    pub fn for_size(rng: &mut Rng, n: usize) -> Self {
        if n > crate::keys::LARGE {
            Bh::good(rng)
        } else {
            Bh::any(rng)
        }
    }
    pub fn any(rng: &mut Rng) -> Self {
        let mode = match rng.below(12) {
            0..=2 => Mode::Mixed,
            3 | 4 => Mode::Sip,
            5 => Mode::Const(*rng.pick(&[0, 1, 7, u64::MAX, 1 << 63])),
            6 => Mode::Mask(*rng.pick(&[1, 3, 7, 0xff, 0xffff])),
            7 => Mode::Shl(*rng.pick(&[1, 4, 8, 16, 32, 56])),
            8 | 9 => Mode::Ident,
            10 => Mode::Step(rng.range(1, 300) as u64, rng.range(1, 300) as u64),
            _ => Mode::Mask(rng.next()),
        };
        Bh::new(mode, rng.next())
    }
}

pub struct Dyn {
    mode: Mode,
    acc: u64,
    ident: u64,
    sip: Option<DefaultHasher>,
}

impl BuildHasher for Bh {
    type Hasher = Dyn;
    fn build_hasher(&self) -> Dyn {
        BUILDS.set(BUILDS.get() + 1);
        tick(Call::Build);
        pause();
        LAST_TAG.set(self.tag);
        let sip = if self.mode == Mode::Sip {
            let mut h = DefaultHasher::new();
            h.write_u64(self.seed);
            Some(h)
        } else {
            None
        };
        Dyn { mode: self.mode, acc: mix(self.seed), ident: 0, sip }
    }
}

impl Hasher for Dyn {
    fn write(&mut self, b: &[u8]) {
        WRITES.set(WRITES.get() + 1);
        BYTES.set(BYTES.get() + b.len() as u64);
        if let Some(s) = &mut self.sip {
            s.write(b);
            return;
        }
        for x in b {
            self.acc = (self.acc ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
            self.acc ^= self.acc >> 29;
        }
        if b.len() >= 8 {
            self.ident ^= u64::from_le_bytes(b[..8].try_into().unwrap());
        } else {
            let mut w = [0u8; 8];
            w[..b.len()].copy_from_slice(b);
            if !b.is_empty() && !(b.len() == 1 && b[0] == 0xff) {
                self.ident ^= u64::from_le_bytes(w);
            }
        }
    }
    fn finish(&self) -> u64 {
        FINISHES.set(FINISHES.get() + 1);
        tick(Call::Finish);
        pause();
        let h = mix(self.acc);
        hasher_lie(match self.mode {
            Mode::Sip => self.sip.as_ref().unwrap().finish(),
            Mode::Mixed => h,
            Mode::Const(c) => c,
            Mode::Mask(m) => h & m,
            Mode::Shl(k) => h << k,
            Mode::Ident => self.ident,
            Mode::Step(m, k) => (h % m).wrapping_mul(k),
        })
    }
}
