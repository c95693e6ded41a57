//! A user-defined unsigned integer: counts comparisons, and can lie about its value.

use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Not, Rem, Shl, Shr, Sub};

use num_traits::{AsPrimitive, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, Num, NumCast, One, PrimInt, Saturating, ToPrimitive, Unsigned, Zero};

thread_local! {
    static COMPARED: Cell<u64> = const { Cell::new(0) };
    static LIE: Cell<Option<u64>> = const { Cell::new(None) };
    static LIES: Cell<u64> = const { Cell::new(0) };
    static RATE: Cell<u64> = const { Cell::new(0) };
}

pub fn compared() -> u64 {
    COMPARED.get()
}

/// From now on a `Liar` says it is something else about once in `rate` times it is asked.
pub fn lie(seed: Option<u64>, rate: u64) {
    LIE.set(seed);
    RATE.set(rate.max(1));
}
pub fn forget_lies() {
    LIES.set(0);
}
pub fn lies() -> u64 {
    LIES.get()
}

pub const HONEST: u8 = 0;
pub const LYING: u8 = 1;
/// Key type that counts comparisons.
pub type Int = Number<HONEST>;
/// Capacity type that isn't to be trusted.
pub type Liar = Number<LYING>;

#[derive(Clone, Copy, Debug)]
pub struct Number<const KIND: u8>(pub u64);

impl<const K: u8> Number<K> {
    fn said(self) -> u64 {
        if K == LYING {
            if let Some(s) = LIE.get() {
                let s = crate::rng::mix(s.wrapping_add(1));
                LIE.set(Some(s));
                if s % RATE.get() == 0 {
                    LIES.set(LIES.get() + 1);
                    return match (s >> 32) % 6 {
                        0 => self.0.wrapping_add(1),
                        1 => self.0.wrapping_sub(1),
                        2 => 1 << (s >> 58),
                        3 => u64::MAX,
                        4 => 0,
                        _ => (s >> 40) & 63,
                    };
                }
            }
        }
        self.0
    }
}

fn tick() {
    COMPARED.set(COMPARED.get() + 1);
}
impl<const K: u8> PartialEq for Number<K> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
    }
}
impl<const K: u8> Eq for Number<K> {}
impl<const K: u8> PartialOrd for Number<K> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const K: u8> Ord for Number<K> {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl<const K: u8> Hash for Number<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}

macro_rules! ops {
    ($($t:ident $m:ident $w:ident)*) => { $(
        impl<const K: u8> $t for Number<K> {
            type Output = Self;
            fn $m(self, o: Self) -> Self { Number(self.said().$w(o.said())) }
        }
    )* };
}
ops!(Add add wrapping_add Sub sub wrapping_sub Mul mul wrapping_mul Div div wrapping_div Rem rem wrapping_rem
     BitAnd bitand bitand BitOr bitor bitor BitXor bitxor bitxor);
macro_rules! checked {
    ($($t:ident $m:ident)*) => { $(
        impl<const K: u8> $t for Number<K> {
            fn $m(&self, o: &Self) -> Option<Self> { self.0.$m(o.0).map(Number) }
        }
    )* };
}
checked!(CheckedAdd checked_add CheckedSub checked_sub CheckedMul checked_mul CheckedDiv checked_div);
impl<const K: u8> Not for Number<K> {
    type Output = Self;
    fn not(self) -> Self {
        Number(!self.0)
    }
}
impl<const K: u8> Shl<usize> for Number<K> {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        Number(self.0 << n)
    }
}
impl<const K: u8> Shr<usize> for Number<K> {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        Number(self.0 >> n)
    }
}
impl<const K: u8> Saturating for Number<K> {
    fn saturating_add(self, o: Self) -> Self {
        Number(self.0.saturating_add(o.0))
    }
    fn saturating_sub(self, o: Self) -> Self {
        Number(self.0.saturating_sub(o.0))
    }
}
impl<const K: u8> Zero for Number<K> {
    fn zero() -> Self {
        Number(Number::<K>(0).said())
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const K: u8> One for Number<K> {
    fn one() -> Self {
        Number(1)
    }
}
impl<const K: u8> Num for Number<K> {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        u64::from_str_radix(s, r).map(Number)
    }
}
impl<const K: u8> Bounded for Number<K> {
    fn min_value() -> Self {
        Number(0)
    }
    fn max_value() -> Self {
        Number(u64::MAX)
    }
}
impl<const K: u8> ToPrimitive for Number<K> {
    fn to_i64(&self) -> Option<i64> {
        self.said().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.said())
    }
}
impl<const K: u8> NumCast for Number<K> {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_u64().map(|x| Number(Number::<K>(x).said()))
    }
}
impl<const K: u8> Unsigned for Number<K> {}
impl<const K: u8> AsPrimitive<u64> for Number<K> {
    fn as_(self) -> u64 {
        self.said()
    }
}
impl<const K: u8> PrimInt for Number<K> {
    fn count_ones(self) -> u32 {
        self.0.count_ones()
    }
    fn count_zeros(self) -> u32 {
        self.0.count_zeros()
    }
    fn leading_zeros(self) -> u32 {
        self.0.leading_zeros()
    }
    fn trailing_zeros(self) -> u32 {
        self.0.trailing_zeros()
    }
    fn rotate_left(self, n: u32) -> Self {
        Number(self.0.rotate_left(n))
    }
    fn rotate_right(self, n: u32) -> Self {
        Number(self.0.rotate_right(n))
    }
    fn signed_shl(self, n: u32) -> Self {
        Number(self.0 << n)
    }
    fn signed_shr(self, n: u32) -> Self {
        Number(((self.0 as i64) >> n) as u64)
    }
    fn unsigned_shl(self, n: u32) -> Self {
        Number(self.0 << n)
    }
    fn unsigned_shr(self, n: u32) -> Self {
        Number(self.0 >> n)
    }
    fn swap_bytes(self) -> Self {
        Number(self.0.swap_bytes())
    }
    fn from_be(x: Self) -> Self {
        Number(u64::from_be(x.0))
    }
    fn from_le(x: Self) -> Self {
        Number(u64::from_le(x.0))
    }
    fn to_be(self) -> Self {
        Number(self.0.to_be())
    }
    fn to_le(self) -> Self {
        Number(self.0.to_le())
    }
    fn pow(self, e: u32) -> Self {
        Number(self.0.wrapping_pow(e))
    }
}
