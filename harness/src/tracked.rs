//! Keys and values whose lives are registered and which fail or lie on demand, and a counting allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug, Formatter};
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::Range;

use frozen_collections_core::traits::len::Len;
use frozen_collections_core::traits::slice_hash::SliceHash;

use crate::catalog::MkVal;
use crate::keys::Key;
use crate::rng::{mix, Rng};
use crate::vfail;

// ---------------------------------------------------------------------------------------------
// registry of lives

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Wrong {
    DroppedTwice,
    UsedAfterDrop,
    NeverCreated,
}

struct Registry {
    /// per id: 0 never, 1 alive, 2 dropped
    state: Vec<u8>,
    alive: usize,
    key_clones: u64,
    val_clones: u64,
    wrong: [Option<(Wrong, u32, bool)>; 4],
}

const CAPACITY: usize = 1 << 16;

thread_local! {
    static REG: RefCell<Registry> = const { RefCell::new(Registry { state: Vec::new(), alive: 0, key_clones: 0, val_clones: 0, wrong: [None; 4] }) };
}

/// Forgets everything; call while nothing registered is alive.
pub fn reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.clear();
        r.alive = 0;
        r.key_clones = 0;
        r.val_clones = 0;
        r.wrong = [None; 4];
    });
    disarm();
    CHAOS.set(Chaos::NONE);
}

fn born() -> u32 {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if r.state.len() == r.state.capacity() {
            PAUSED.set(true);
            r.state.reserve(CAPACITY);
            PAUSED.set(false);
        }
        r.state.push(1);
        r.alive += 1;
        (r.state.len() - 1) as u32
    })
}

fn note(r: &mut Registry, w: Wrong, id: u32, key: bool) {
    if let Some(x) = r.wrong.iter_mut().find(|x| x.is_none()) {
        *x = Some((w, id, key));
    }
}

fn died(id: u32, key: bool) {
    let _ = REG.try_with(|r| {
        let mut r = r.borrow_mut();
        match r.state.get(id as usize).copied() {
            Some(1) => {
                r.state[id as usize] = 2;
                r.alive -= 1;
            }
            Some(_) => note(&mut r, Wrong::DroppedTwice, id, key),
            None => note(&mut r, Wrong::NeverCreated, id, key),
        }
    });
}

fn used(id: u32, key: bool) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        match r.state.get(id as usize).copied() {
            Some(1) => {}
            Some(_) => note(&mut r, Wrong::UsedAfterDrop, id, key),
            None => note(&mut r, Wrong::NeverCreated, id, key),
        }
    });
}

/// How many registered keys and values exist.
pub fn alive() -> usize {
    REG.with(|r| r.borrow().alive)
}
pub fn is_alive(id: u64) -> bool {
    REG.with(|r| r.borrow().state.get(id as usize) == Some(&1))
}
/// Ids are given out in order; those created from now on are at least this.
pub fn next_id() -> u64 {
    REG.with(|r| r.borrow().state.len() as u64)
}
/// How many of the ids from `from` on are alive.
pub fn alive_since(from: u64) -> usize {
    REG.with(|r| r.borrow().state.iter().skip(from as usize).filter(|x| **x == 1).count())
}
pub fn clones() -> (u64, u64) {
    REG.with(|r| (r.borrow().key_clones, r.borrow().val_clones))
}
/// Fails the case if a key or value was dropped twice or used after it was dropped.
pub fn verify(what: &str) {
    let w = REG.with(|r| r.borrow().wrong[0]);
    if let Some((w, id, key)) = w {
        disarm();
        vfail!("{what}: {} number {id}: {w:?}", if key { "key" } else { "value" });
    }
}
pub fn went_wrong() -> bool {
    REG.with(|r| r.borrow().wrong[0].is_some())
}

// ---------------------------------------------------------------------------------------------
// injected panics

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Call {
    Hash,
    Eq,
    Len,
    Slice,
    Build,
    Finish,
    Clone,
    Debug,
    ValEq,
    Drop,
    HasherClone,
    Produce,
}
pub const CALLS: [Call; 12] =
    [Call::Hash, Call::Eq, Call::Len, Call::Slice, Call::Build, Call::Finish, Call::Clone, Call::Debug, Call::ValEq, Call::Drop, Call::HasherClone, Call::Produce];

/// Panic payload of an injected failure.
pub struct Injected(pub Call, pub u64);

thread_local! {
    static ARMED: Cell<u64> = const { Cell::new(0) };
    static KINDS: Cell<u32> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

fn bit(c: Call) -> u32 {
    1 << c as u32
}

/// Counts calls of these kinds from now on, and makes the `k`-th panic (0: none).
pub fn arm(kinds: &[Call], k: u64) {
    KINDS.set(kinds.iter().map(|c| bit(*c)).sum());
    SEEN.set(0);
    ARMED.set(k);
    FIRED.set(false);
}
/// Stops counting; the number of calls seen, and whether one of them panicked.
pub fn disarm() -> (u64, bool) {
    KINDS.set(0);
    ARMED.set(0);
    (SEEN.replace(0), FIRED.replace(false))
}

#[inline]
pub fn tick(c: Call) {
    let k = KINDS.try_with(Cell::get).unwrap_or(0);
    if k & bit(c) == 0 {
        return;
    }
    SEEN.set(SEEN.get() + 1);
    if SEEN.get() == ARMED.get() && !std::thread::panicking() {
        FIRED.set(true);
        std::panic::resume_unwind(Box::new(Injected(c, SEEN.get())));
    }
}

// ---------------------------------------------------------------------------------------------
// lies

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lie {
    No,
    /// a fixed answer
    Always(u64),
    /// a different answer at each call
    Random,
    /// truthful, except for one call in so many
    Sometimes(u64),
    /// depends on the instance, not only on its content
    Instance,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Chaos {
    pub eq: Lie,
    pub hash: Lie,
    pub len: Lie,
    pub slice: Lie,
    pub hasher: Lie,
    pub value_eq: Lie,
}

impl Chaos {
    pub const NONE: Chaos = Chaos { eq: Lie::No, hash: Lie::No, len: Lie::No, slice: Lie::No, hasher: Lie::No, value_eq: Lie::No };
    pub fn any(rng: &mut Rng) -> Chaos {
        let mut lie = |n: &[u64]| match rng.below(9) {
            0..=2 => Lie::No,
            3 | 4 => Lie::Always(*rng.pick(n)),
            5 | 6 => Lie::Random,
            7 => Lie::Sometimes(rng.range(2, 40) as u64),
            _ => Lie::Instance,
        };
        let b = [0, 1, 1];
        let h = [0, 1, u64::MAX, 1 << 63, 255, 256];
        let l = [0, 1, 2, 7, 100, u64::MAX, u64::MAX >> 1, 1 << 40, 256];
        Chaos { eq: lie(&b), hash: lie(&h), len: lie(&l), slice: lie(&h), hasher: lie(&h), value_eq: lie(&b) }
    }
}

thread_local! {
    static CHAOS: Cell<Chaos> = const { Cell::new(Chaos::NONE) };
    static NOISE: Cell<u64> = const { Cell::new(1) };
    static LIES: Cell<u64> = const { Cell::new(0) };
}

pub fn set_chaos(c: Chaos, seed: u64) {
    CHAOS.set(c);
    NOISE.set(mix(seed));
    LIES.set(0);
}
/// How many answers were not the truth (or could differ from it).
pub fn lies() -> u64 {
    LIES.get()
}

fn noise() -> u64 {
    let n = mix(NOISE.get());
    NOISE.set(n);
    n
}

fn told(l: Lie, truth: u64, instance: u64) -> u64 {
    if l == Lie::No {
        return truth;
    }
    LIES.set(LIES.get() + 1);
    match l {
        Lie::No => truth,
        Lie::Always(x) => x,
        Lie::Random => {
            let n = noise();
            n >> (n & 63)
        }
        Lie::Sometimes(k) => {
            let n = noise();
            if n % k == 0 {
                n >> 7
            } else {
                truth
            }
        }
        Lie::Instance => mix(instance ^ truth),
    }
}

/// What a lying collection says its length is, and whether something is in it.
pub fn lie_size(truth: usize) -> usize {
    told(CHAOS.get().len, truth as u64, 1) as usize
}
pub fn lie_bool(truth: bool) -> bool {
    told(CHAOS.get().eq, u64::from(truth), 1) & 1 == 1
}

/// What a lying hasher returns for a hash code.
#[inline]
pub fn hasher_lie(truth: u64) -> u64 {
    match CHAOS.get().hasher {
        Lie::No => truth,
        l => told(l, truth, 0),
    }
}

// ---------------------------------------------------------------------------------------------
// keys and values

const KEY: u32 = 0x4b45_5931;
const VAL: u32 = 0x5641_4c31;

pub struct TKey {
    id: u32,
    magic: u32,
    text: String,
}

impl TKey {
    pub fn new(text: &str) -> Self {
        TKey { id: born(), magic: KEY, text: text.to_string() }
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    fn touch(&self) {
        used(if self.magic == KEY { self.id } else { u32::MAX }, true);
    }
}
impl Clone for TKey {
    fn clone(&self) -> Self {
        tick(Call::Clone);
        self.touch();
        let text = self.text.clone();
        REG.with(|r| r.borrow_mut().key_clones += 1);
        TKey { id: born(), magic: KEY, text }
    }
}
impl Drop for TKey {
    fn drop(&mut self) {
        died(if self.magic == KEY { self.id } else { u32::MAX }, true);
        tick(Call::Drop);
    }
}
impl PartialEq for TKey {
    fn eq(&self, o: &Self) -> bool {
        self.touch();
        o.touch();
        tick(Call::Eq);
        told(CHAOS.get().eq, u64::from(self.text == o.text), u64::from(self.id) << 8) & 1 == 1
    }
}
impl Eq for TKey {}
impl Hash for TKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.touch();
        tick(Call::Hash);
        match CHAOS.get().hash {
            Lie::No => Hash::hash(&self.text, h),
            l => h.write_u64(told(l, 5, u64::from(self.id))),
        }
    }
}
impl Debug for TKey {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.touch();
        tick(Call::Debug);
        Debug::fmt(&self.text, f)
    }
}
impl Len for TKey {
    fn len(&self) -> usize {
        self.touch();
        tick(Call::Len);
        told(CHAOS.get().len, self.text.len() as u64, u64::from(self.id)) as usize
    }
}
impl SliceHash for TKey {
    fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
        self.touch();
        tick(Call::Slice);
        match CHAOS.get().slice {
            Lie::No => match self.text.as_bytes().get(range.clone()) {
                Some(b) => bh.hash_one(b),
                None if CHAOS.get().len != Lie::No => 3,
                None => panic!("slice {range:?} of a key of {} bytes", self.text.len()),
            },
            l => told(l, 9, u64::from(self.id)),
        }
    }
}
impl PartialOrd for TKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.text.cmp(&o.text)
    }
}
impl Key for TKey {
    const NAME: &'static str = "registered key";
    fn gen(rng: &mut Rng, n: usize) -> (Vec<Self>, &'static str) {
        let (v, s) = String::gen(rng, n);
        (v.iter().map(|x| TKey::new(x)).collect(), s)
    }
    fn probes(rng: &mut Rng, keys: &[Self], limit: usize) -> Vec<Self> {
        let k: Vec<String> = keys.iter().map(|c| c.text.clone()).collect();
        String::probes(rng, &k, limit).iter().map(|x| TKey::new(x)).collect()
    }
    fn variant(&self, _: u64) -> Self {
        TKey::new(&self.text)
    }
    fn instance(&self) -> u64 {
        u64::from(self.id)
    }
    fn registered() -> bool {
        true
    }
    fn heap(&self) -> Option<*const u8> {
        Key::heap(&self.text)
    }
}

pub struct TVal {
    id: u32,
    magic: u32,
    payload: Box<u64>,
}
impl TVal {
    fn touch(&self) {
        used(if self.magic == VAL { self.id } else { u32::MAX }, false);
    }
}
impl Clone for TVal {
    fn clone(&self) -> Self {
        tick(Call::Clone);
        self.touch();
        let payload = self.payload.clone();
        REG.with(|r| r.borrow_mut().val_clones += 1);
        TVal { id: born(), magic: VAL, payload }
    }
}
impl Drop for TVal {
    fn drop(&mut self) {
        died(if self.magic == VAL { self.id } else { u32::MAX }, false);
        tick(Call::Drop);
    }
}
impl PartialEq for TVal {
    fn eq(&self, o: &Self) -> bool {
        self.touch();
        o.touch();
        tick(Call::ValEq);
        told(CHAOS.get().value_eq, u64::from(self.payload == o.payload), u64::from(self.id) << 8) & 1 == 1
    }
}
impl Debug for TVal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.touch();
        tick(Call::Debug);
        write!(f, "#{}", self.payload)
    }
}
impl MkVal for TVal {
    const NAME: &'static str = "registered value";
    fn mk(i: u64) -> TVal {
        TVal { id: born(), magic: VAL, payload: Box::new(i) }
    }
    fn instance(&self) -> u64 {
        u64::from(self.id)
    }
    fn registered() -> bool {
        true
    }
    fn heap(&self) -> Option<*const u8> {
        Some(std::ptr::from_ref(&*self.payload).cast())
    }
}

// ---------------------------------------------------------------------------------------------
// allocations

/// Counts what the current thread allocates. Install it with `#[global_allocator]`.
pub struct Counting;

thread_local! {
    static PAUSED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn took(n: usize) {
    let _ = LIVE.try_with(|l| {
        if PAUSED.get() {
            return;
        }
        l.set(l.get() + n as isize);
        if l.get() > PEAK.get() {
            PEAK.set(l.get());
        }
        BLOCKS.set(BLOCKS.get() + 1);
        TOTAL.set(TOTAL.get() + n as u64);
    });
}
fn gave(n: usize) {
    let _ = LIVE.try_with(|l| {
        if PAUSED.get() {
            return;
        }
        l.set(l.get() - n as isize);
        BLOCKS.set(BLOCKS.get() - 1);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            took(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            took(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        gave(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            // a moving reallocation holds both blocks for a moment
            took(n);
            gave(l.size());
        }
        q
    }
}

/// (bytes, blocks) this thread allocated and has not freed.
pub fn heap() -> (isize, isize) {
    (LIVE.get(), BLOCKS.get())
}
/// Starts a new peak measurement.
pub fn mark_peak() {
    PEAK.set(LIVE.get());
}
/// The most bytes in use since `mark_peak`.
pub fn peak() -> isize {
    PEAK.get()
}
/// All bytes ever allocated by this thread.
pub fn total_allocated() -> u64 {
    TOTAL.get()
}
