//! Offline stand-in for the `fixed` git fork (not fetchable here). Binary-compatible layout
//! (`#[repr(transparent)]` over the bits) and the same numeric rules for the operations used by
//! mango-v4: arithmetic panics on overflow, multiplication rounds towards -inf, division truncates,
//! conversion to integers floors, conversion from floats rounds to nearest (ties to even).
#![allow(clippy::all)]

pub mod traits {
    /// Lossless carrier used for conversions: value = sign * mag / 2^frac.
    #[derive(Clone, Copy)]
    pub struct Wide {
        pub neg: bool,
        pub mag: u128,
        pub frac: u32,
    }
    pub trait ToFixed: Copy {
        fn to_wide_fixed(self, dst_frac: u32) -> Option<(bool, u128)>;
    }
    pub trait FromFixed: Sized {
        /// bits scaled by 2^frac
        fn from_wide_fixed(neg: bool, mag: u128, frac: u32) -> Option<Self>;
    }
    macro_rules! ints {
        ($($t:ty)*) => {$(
            impl ToFixed for $t {
                fn to_wide_fixed(self, dst_frac: u32) -> Option<(bool, u128)> {
                    #[allow(unused_comparisons)]
                    let neg = self < 0;
                    let mag: u128 = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                    if mag != 0 && mag.leading_zeros() < dst_frac { return None; }
                    Some((neg, if mag == 0 { 0 } else { mag << dst_frac }))
                }
            }
            impl FromFixed for $t {
                fn from_wide_fixed(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                    let fl = mag >> frac;
                    if neg {
                        let rem = mag & ((1u128 << frac) - 1) != 0;
                        let m = fl + rem as u128;
                        if m > i128::MAX as u128 { return None; }
                        <$t>::try_from(-(m as i128)).ok()
                    } else {
                        <$t>::try_from(fl).ok()
                    }
                }
            }
        )*}
    }
    ints! {u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize}
    impl ToFixed for bool {
        fn to_wide_fixed(self, f: u32) -> Option<(bool, u128)> { (self as u8).to_wide_fixed(f) }
    }
    impl ToFixed for f64 {
        fn to_wide_fixed(self, dst_frac: u32) -> Option<(bool, u128)> {
            if !self.is_finite() { return None; }
            let bits = self.to_bits();
            let neg = bits >> 63 != 0;
            let e = ((bits >> 52) & 0x7ff) as i32;
            let m = bits & ((1u64 << 52) - 1);
            let (m, e) = if e == 0 { (m as u128, -1074) } else { ((m | 1 << 52) as u128, e - 1075) };
            if m == 0 { return Some((neg, 0)); }
            let sh = e + dst_frac as i32;
            if sh >= 0 {
                if (m.leading_zeros() as i32) < sh { return None; }
                Some((neg, m << sh))
            } else {
                let s = (-sh) as u32;
                if s > 64 { return Some((neg, 0)); }
                let q = m >> s;
                let r = m & ((1u128 << s) - 1);
                let half = 1u128 << (s - 1);
                let up = r > half || (r == half && q & 1 == 1);
                Some((neg, q + up as u128))
            }
        }
    }
    impl ToFixed for f32 {
        fn to_wide_fixed(self, f: u32) -> Option<(bool, u128)> { (self as f64).to_wide_fixed(f) }
    }
    impl FromFixed for f64 {
        fn from_wide_fixed(neg: bool, mag: u128, frac: u32) -> Option<Self> {
            let v = mag as f64 / (2f64).powi(frac as i32);
            Some(if neg { -v } else { v })
        }
    }
    impl FromFixed for f32 {
        fn from_wide_fixed(neg: bool, mag: u128, frac: u32) -> Option<Self> {
            f64::from_wide_fixed(neg, mag, frac).map(|v| v as f32)
        }
    }
    pub trait Bounded { const MIN_V: Self; const MAX_V: Self; }
    macro_rules! bounded { ($($t:ty)*) => {$(impl Bounded for $t { const MIN_V: Self = <$t>::MIN; const MAX_V: Self = <$t>::MAX; })*} }
    bounded! {u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64}
    pub trait Fixed: Copy {}
    pub trait LossyFrom<T> { fn lossy_from(v: T) -> Self; }
    pub trait LossyInto<T> { fn lossy_into(self) -> T; }
}

fn mul_wide(a: u128, b: u128) -> (u128, u128) {
    let m = u64::MAX as u128;
    let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    let lo = (p00 & m) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}
/// floor((hi,lo) >> sh), with the flag "discarded bits were non-zero"
fn shr_wide(hi: u128, lo: u128, sh: u32) -> Option<(u128, bool)> {
    if sh == 0 { return if hi == 0 { Some((lo, false)) } else { None }; }
    if hi >> sh != 0 { return None; }
    Some(((hi << (128 - sh)) | (lo >> sh), lo & ((1u128 << sh) - 1) != 0))
}
/// trunc((mag << sh) / d)
fn div_wide(mag: u128, sh: u32, d: u128) -> Option<u128> {
    if d == 0 { return None; }
    let (hi, lo) = if sh == 0 { (0, mag) } else { (mag >> (128 - sh), mag << sh) };
    if hi >= d { return None; }
    if hi == 0 { return Some(lo / d); }
    let mut rem = hi;
    let mut q = 0u128;
    for i in (0..128).rev() {
        let top = rem >> 127 != 0;
        rem = (rem << 1) | ((lo >> i) & 1);
        q <<= 1;
        if top || rem >= d {
            rem = rem.wrapping_sub(d);
            q |= 1;
        }
    }
    Some(q)
}

pub mod types {
    use super::traits::*;
    use super::{div_wide, mul_wide, shr_wide};
    use std::cmp::Ordering;
    use std::fmt;
    use std::ops::*;

    macro_rules! fixed_type {
        ($N:ident, $I:ty, $U:ty, $frac:expr, $signed:expr) => {
            #[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
            #[repr(transparent)]
            pub struct $N { bits: $I }
            unsafe impl bytemuck::Zeroable for $N {}
            unsafe impl bytemuck::Pod for $N {}
            impl Fixed for $N {}
            impl $N {
                pub const ZERO: $N = $N { bits: 0 };
                pub const DELTA: $N = $N { bits: 1 };
                pub const ONE: $N = $N { bits: 1 << $frac };
                pub const MIN: $N = $N { bits: <$I>::MIN };
                pub const MAX: $N = $N { bits: <$I>::MAX };
                pub const FRAC_NBITS: u32 = $frac;
                pub const INT_NBITS: u32 = 128 - $frac;
                pub const fn from_bits(bits: $I) -> Self { Self { bits } }
                pub const fn to_bits(self) -> $I { self.bits }
                fn parts(self) -> (bool, u128) {
                    #[allow(unused_comparisons)]
                    if self.bits < 0 { (true, (self.bits as i128).unsigned_abs()) } else { (false, self.bits as u128) }
                }
                fn from_parts(neg: bool, mag: u128) -> Option<Self> {
                    if neg && mag != 0 {
                        if !$signed || mag > 1u128 << 127 { return None; }
                        Some(Self { bits: (mag as i128).wrapping_neg() as $I })
                    } else {
                        <$I>::try_from(mag).ok().map(|bits| Self { bits })
                    }
                }
                /// value = -ceil or floor
                fn from_parts_floor(neg: bool, mag: u128, inexact: bool) -> Option<Self> {
                    if neg && inexact { Self::from_parts(neg, mag.checked_add(1)?) } else { Self::from_parts(neg, mag) }
                }
                pub fn from_num<S: ToFixed>(s: S) -> Self { Self::checked_from_num(s).expect("overflow") }
                pub fn checked_from_num<S: ToFixed>(s: S) -> Option<Self> {
                    let (n, m) = s.to_wide_fixed($frac)?;
                    Self::from_parts(n, m)
                }
                pub fn saturating_from_num<S: ToFixed + PartialOrd + Default>(s: S) -> Self {
                    Self::checked_from_num(s).unwrap_or(if s < S::default() { Self::MIN } else { Self::MAX })
                }
                pub fn to_num<D: FromFixed>(self) -> D { self.checked_to_num().expect("overflow") }
                pub fn checked_to_num<D: FromFixed>(self) -> Option<D> {
                    let (n, m) = self.parts();
                    D::from_wide_fixed(n, m, $frac)
                }
                pub const fn is_zero(self) -> bool { self.bits == 0 }
                pub const fn leading_zeros(self) -> u32 { self.bits.leading_zeros() }
                pub const fn trailing_zeros(self) -> u32 { self.bits.trailing_zeros() }
                pub fn floor(self) -> Self { self.checked_floor().expect("overflow") }
                pub fn checked_floor(self) -> Option<Self> { Some(Self { bits: (self.bits >> $frac) << $frac }) }
                pub fn ceil(self) -> Self { self.checked_ceil().expect("overflow") }
                pub fn checked_ceil(self) -> Option<Self> {
                    let f = self.floor();
                    if f == self { Some(f) } else { f.checked_add(Self::ONE) }
                }
                pub fn round(self) -> Self { self.checked_round().expect("overflow") }
                pub fn checked_round(self) -> Option<Self> {
                    let half = Self { bits: 1 << ($frac - 1) };
                    #[allow(unused_comparisons)]
                    if self.bits < 0 { self.checked_sub(half)?.checked_ceil() } else { Some(self.checked_add(half)?.floor()) }
                }
                pub fn int(self) -> Self { self.floor() }
                pub fn frac(self) -> Self { Self { bits: self.bits & ((1 << $frac) - 1) } }
                pub const fn checked_add(self, r: Self) -> Option<Self> { match self.bits.checked_add(r.bits) { Some(bits) => Some(Self { bits }), None => None } }
                pub const fn checked_sub(self, r: Self) -> Option<Self> { match self.bits.checked_sub(r.bits) { Some(bits) => Some(Self { bits }), None => None } }
                pub const fn checked_neg(self) -> Option<Self> { match self.bits.checked_neg() { Some(bits) => Some(Self { bits }), None => None } }
                pub fn checked_mul(self, r: Self) -> Option<Self> {
                    let ((an, a), (bn, b)) = (self.parts(), r.parts());
                    let (hi, lo) = mul_wide(a, b);
                    let (m, inexact) = shr_wide(hi, lo, $frac)?;
                    Self::from_parts_floor(an != bn, m, inexact)
                }
                pub fn checked_div(self, r: Self) -> Option<Self> {
                    let ((an, a), (bn, b)) = (self.parts(), r.parts());
                    Self::from_parts(an != bn, div_wide(a, $frac, b)?)
                }
                pub const fn checked_rem(self, r: Self) -> Option<Self> { match self.bits.checked_rem(r.bits) { Some(bits) => Some(Self { bits }), None => None } }
                pub const fn checked_mul_int(self, r: $I) -> Option<Self> { match self.bits.checked_mul(r) { Some(bits) => Some(Self { bits }), None => None } }
                pub const fn checked_div_int(self, r: $I) -> Option<Self> { match self.bits.checked_div(r) { Some(bits) => Some(Self { bits }), None => None } }
                pub fn checked_recip(self) -> Option<Self> { Self::ONE.checked_div(self) }
                pub fn recip(self) -> Self { self.checked_recip().expect("overflow") }
                pub const fn saturating_add(self, r: Self) -> Self { Self { bits: self.bits.saturating_add(r.bits) } }
                pub const fn saturating_sub(self, r: Self) -> Self { Self { bits: self.bits.saturating_sub(r.bits) } }
                pub fn saturating_mul(self, r: Self) -> Self {
                    self.checked_mul(r).unwrap_or(if self.parts().0 != r.parts().0 { Self::MIN } else { Self::MAX })
                }
                pub fn saturating_div(self, r: Self) -> Self {
                    self.checked_div(r).unwrap_or(if self.parts().0 != r.parts().0 { Self::MIN } else { Self::MAX })
                }
                pub const fn wrapping_add(self, r: Self) -> Self { Self { bits: self.bits.wrapping_add(r.bits) } }
                pub const fn wrapping_sub(self, r: Self) -> Self { Self { bits: self.bits.wrapping_sub(r.bits) } }
                pub const fn wrapping_neg(self) -> Self { Self { bits: self.bits.wrapping_neg() } }
                pub const fn unwrapped_add(self, r: Self) -> Self { match self.checked_add(r) { Some(v) => v, None => panic!("overflow") } }
                pub const fn unwrapped_sub(self, r: Self) -> Self { match self.checked_sub(r) { Some(v) => v, None => panic!("overflow") } }
                pub fn round_to_zero(self) -> Self { if self.parts().0 { self.ceil() } else { self.floor() } }
                pub fn checked_round_to_zero(self) -> Option<Self> { Some(self.round_to_zero()) }
                pub fn round_ties_to_even(self) -> Self {
                    let half = Self { bits: 1 << ($frac - 1) };
                    let f = self.floor();
                    let d = self - f;
                    if d > half || (d == half && (f.bits >> $frac) & 1 == 1) { f + Self::ONE } else { f }
                }
                pub fn saturating_floor(self) -> Self { self.checked_floor().unwrap_or(Self::MIN) }
                pub fn saturating_ceil(self) -> Self { self.checked_ceil().unwrap_or(Self::MAX) }
                pub fn saturating_round(self) -> Self { self.checked_round().unwrap_or(Self::MAX) }
                pub fn saturating_neg(self) -> Self { self.checked_neg().unwrap_or(Self::MAX) }
                pub fn wrapping_mul(self, r: Self) -> Self {
                    let ((an, a), (bn, b)) = (self.parts(), r.parts());
                    let (hi, lo) = mul_wide(a, b);
                    let m = (hi << (128 - $frac)) | (lo >> $frac);
                    let inexact = lo & ((1u128 << $frac) - 1) != 0;
                    if an != bn { Self { bits: m.wrapping_add(inexact as u128).wrapping_neg() as $I } } else { Self { bits: m as $I } }
                }
                pub fn wrapping_div(self, r: Self) -> Self { self.checked_div(r).unwrap_or(Self::ZERO) }
                pub const fn wrapping_mul_int(self, r: $I) -> Self { Self { bits: self.bits.wrapping_mul(r) } }
                pub const fn wrapping_div_int(self, r: $I) -> Self { Self { bits: self.bits.wrapping_div(r) } }
                pub const fn wrapping_shl(self, r: u32) -> Self { Self { bits: self.bits.wrapping_shl(r) } }
                pub const fn wrapping_shr(self, r: u32) -> Self { Self { bits: self.bits.wrapping_shr(r) } }
                pub const fn checked_shl(self, r: u32) -> Option<Self> { match self.bits.checked_shl(r) { Some(bits) => Some(Self { bits }), None => None } }
                pub const fn checked_shr(self, r: u32) -> Option<Self> { match self.bits.checked_shr(r) { Some(bits) => Some(Self { bits }), None => None } }
                pub const fn saturating_mul_int(self, r: $I) -> Self { Self { bits: self.bits.saturating_mul(r) } }
                pub const fn overflowing_add(self, r: Self) -> (Self, bool) { let (bits, o) = self.bits.overflowing_add(r.bits); (Self { bits }, o) }
                pub const fn overflowing_sub(self, r: Self) -> (Self, bool) { let (bits, o) = self.bits.overflowing_sub(r.bits); (Self { bits }, o) }
                pub const fn overflowing_neg(self) -> (Self, bool) { let (bits, o) = self.bits.overflowing_neg(); (Self { bits }, o) }
                pub fn overflowing_mul(self, r: Self) -> (Self, bool) { (self.wrapping_mul(r), self.checked_mul(r).is_none()) }
                pub fn overflowing_div(self, r: Self) -> (Self, bool) { (self.wrapping_div(r), self.checked_div(r).is_none()) }
                pub fn unwrapped_mul(self, r: Self) -> Self { self.checked_mul(r).expect("overflow") }
                pub fn unwrapped_div(self, r: Self) -> Self { self.checked_div(r).expect("overflow") }
                pub fn unwrapped_neg(self) -> Self { self.checked_neg().expect("overflow") }
                pub fn unwrapped_from_num<S: ToFixed>(s: S) -> Self { Self::checked_from_num(s).expect("overflow") }
                pub fn unwrapped_to_num<D: FromFixed>(self) -> D { self.checked_to_num().expect("overflow") }
                pub fn wrapping_from_num<S: ToFixed>(s: S) -> Self { Self::checked_from_num(s).unwrap_or(Self::ZERO) }
                pub fn wrapping_to_num<D: FromFixed + Default>(self) -> D { self.checked_to_num().unwrap_or_default() }
                pub fn saturating_to_num<D: FromFixed + Bounded>(self) -> D {
                    let neg = self.parts().0;
                    self.checked_to_num().unwrap_or(if neg { D::MIN_V } else { D::MAX_V })
                }
                pub fn checked_rem_euclid(self, r: Self) -> Option<Self> { self.bits.checked_rem_euclid(r.bits).map(|bits| Self { bits }) }
                pub fn rem_euclid(self, r: Self) -> Self { self.checked_rem_euclid(r).expect("overflow") }
                pub fn div_euclid(self, r: Self) -> Self { self.checked_div_euclid(r).expect("overflow") }
                pub fn checked_div_euclid(self, r: Self) -> Option<Self> { self.bits.checked_div_euclid(r.bits)?.checked_mul(1 << $frac).map(|bits| Self { bits }) }
                pub fn mul_add(self, m: Self, a: Self) -> Self { self * m + a }
                pub fn checked_mul_add(self, m: Self, a: Self) -> Option<Self> { self.checked_mul(m)?.checked_add(a) }
                pub fn checked_mul_acc(&mut self, a: Self, b: Self) -> Option<()> { *self = self.checked_add(a.checked_mul(b)?)?; Some(()) }
                pub fn mean(self, o: Self) -> Self { Self { bits: (self.bits & o.bits) + ((self.bits ^ o.bits) >> 1) } }
                pub const fn count_ones(self) -> u32 { self.bits.count_ones() }
                pub const fn count_zeros(self) -> u32 { self.bits.count_zeros() }
                pub const fn to_be_bytes(self) -> [u8; 16] { self.bits.to_be_bytes() }
                pub const fn from_be_bytes(b: [u8; 16]) -> Self { Self { bits: <$I>::from_be_bytes(b) } }
                pub const fn to_ne_bytes(self) -> [u8; 16] { self.bits.to_ne_bytes() }
                pub const fn from_ne_bytes(b: [u8; 16]) -> Self { Self { bits: <$I>::from_ne_bytes(b) } }
                pub fn from_fixed<S: ToFixed>(s: S) -> Self { Self::from_num(s) }
                pub const fn const_from_int(i: $I) -> Self { Self { bits: i << $frac } }
                pub const fn to_le_bytes(self) -> [u8; 16] { self.bits.to_le_bytes() }
                pub const fn from_le_bytes(b: [u8; 16]) -> Self { Self { bits: <$I>::from_le_bytes(b) } }
            }
            impl ToFixed for $N {
                fn to_wide_fixed(self, dst: u32) -> Option<(bool, u128)> {
                    let (n, m) = self.parts();
                    if dst >= $frac {
                        let s = dst - $frac;
                        if m != 0 && m.leading_zeros() < s { return None; }
                        Some((n, if m == 0 { 0 } else { m << s }))
                    } else {
                        let s = $frac - dst;
                        let inexact = m & ((1u128 << s) - 1) != 0;
                        Some((n, (m >> s) + (n && inexact) as u128))
                    }
                }
            }
            impl FromFixed for $N {
                fn from_wide_fixed(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                    if $frac >= frac {
                        let s = $frac - frac;
                        if mag != 0 && mag.leading_zeros() < s { return None; }
                        Self::from_parts(neg, if mag == 0 { 0 } else { mag << s })
                    } else {
                        let s = frac - $frac;
                        Self::from_parts_floor(neg, mag >> s, mag & ((1u128 << s) - 1) != 0)
                    }
                }
            }
            fixed_type!(@bin $N, Add, add, AddAssign, add_assign, checked_add);
            fixed_type!(@bin $N, Sub, sub, SubAssign, sub_assign, checked_sub);
            fixed_type!(@bin $N, Mul, mul, MulAssign, mul_assign, checked_mul);
            fixed_type!(@bin $N, Div, div, DivAssign, div_assign, checked_div);
            fixed_type!(@bin $N, Rem, rem, RemAssign, rem_assign, checked_rem);
            impl Mul<$I> for $N { type Output = Self; fn mul(self, r: $I) -> Self { self.checked_mul_int(r).expect("overflow") } }
            impl Div<$I> for $N { type Output = Self; fn div(self, r: $I) -> Self { self.checked_div_int(r).expect("overflow") } }
            impl MulAssign<$I> for $N { fn mul_assign(&mut self, r: $I) { *self = *self * r } }
            impl DivAssign<$I> for $N { fn div_assign(&mut self, r: $I) { *self = *self / r } }
            impl Shl<u32> for $N { type Output = Self; fn shl(self, r: u32) -> Self { Self { bits: self.bits << r } } }
            impl Shr<u32> for $N { type Output = Self; fn shr(self, r: u32) -> Self { Self { bits: self.bits >> r } } }
            impl std::iter::Sum for $N { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
            impl<'a> std::iter::Sum<&'a $N> for $N { fn sum<I: Iterator<Item = &'a $N>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + *b) } }
            impl std::iter::Product for $N { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
            impl fmt::Display for $N {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    let (n, m) = self.parts();
                    let mut s = format!("{}", m >> $frac);
                    let mask = (1u128 << $frac) - 1;
                    let mut r = m & mask;
                    let digits = f.precision().unwrap_or(15);
                    if digits > 0 && (r != 0 || f.precision().is_some()) {
                        s.push('.');
                        for _ in 0..digits {
                            let (hi, lo) = mul_wide(r, 10);
                            let (d, _) = shr_wide(hi, lo, $frac).unwrap();
                            s.push((b'0' + d as u8) as char);
                            r = lo & mask;
                        }
                        if f.precision().is_none() { while s.ends_with('0') { s.pop(); } if s.ends_with('.') { s.pop(); } }
                    }
                    f.pad_integral(!n, "", &s)
                }
            }
            impl fmt::Debug for $N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
            impl std::str::FromStr for $N {
                type Err = std::num::ParseFloatError;
                fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(Self::from_num(s.parse::<f64>()?)) }
            }
            impl borsh::BorshSerialize for $N { fn serialize<W: std::io::Write>(&self, w: &mut W) -> std::io::Result<()> { self.bits.serialize(w) } }
            impl borsh::BorshDeserialize for $N { fn deserialize_reader<R: std::io::Read>(r: &mut R) -> std::io::Result<Self> { Ok(Self { bits: <$I>::deserialize_reader(r)? }) } }
            impl serde::Serialize for $N { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{}", self)) } }
            impl<'de> serde::Deserialize<'de> for $N { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Self::from_num(<f64 as serde::Deserialize>::deserialize(d)?)) } }
            fixed_type!(@cmp $N, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
        };
        (@bin $N:ident, $T:ident, $m:ident, $TA:ident, $ma:ident, $c:ident) => {
            impl $T for $N { type Output = $N; #[track_caller] fn $m(self, r: $N) -> $N { self.$c(r).expect("overflow") } }
            impl<'a> $T<&'a $N> for $N { type Output = $N; #[track_caller] fn $m(self, r: &'a $N) -> $N { self.$c(*r).expect("overflow") } }
            impl<'a> $T<$N> for &'a $N { type Output = $N; #[track_caller] fn $m(self, r: $N) -> $N { (*self).$c(r).expect("overflow") } }
            impl<'a, 'b> $T<&'a $N> for &'b $N { type Output = $N; #[track_caller] fn $m(self, r: &'a $N) -> $N { (*self).$c(*r).expect("overflow") } }
            impl $TA for $N { #[track_caller] fn $ma(&mut self, r: $N) { *self = self.$c(r).expect("overflow") } }
            impl<'a> $TA<&'a $N> for $N { #[track_caller] fn $ma(&mut self, r: &'a $N) { *self = self.$c(*r).expect("overflow") } }
        };
        (@cmp $N:ident, $($p:ty)*) => {$(
            impl PartialEq<$p> for $N { fn eq(&self, o: &$p) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) } }
            impl PartialEq<$N> for $p { fn eq(&self, o: &$N) -> bool { o == self } }
            impl PartialOrd<$p> for $N {
                fn partial_cmp(&self, o: &$p) -> Option<Ordering> {
                    #[allow(unused_comparisons)]
                    match $N::checked_from_num(*o) {
                        // (floats with more fractional bits than the type are compared after rounding)
                        Some(v) => Some(self.cmp(&v)),
                        None if *o != *o => None,
                        None if *o < (0 as $p) => Some(Ordering::Greater),
                        None => Some(Ordering::Less),
                    }
                }
            }
            impl PartialOrd<$N> for $p { fn partial_cmp(&self, o: &$N) -> Option<Ordering> { o.partial_cmp(self).map(Ordering::reverse) } }
        )*};
    }
    fixed_type!(I80F48, i128, u128, 48, true);
    fixed_type!(I64F64, i128, u128, 64, true);
    fixed_type!(U80F48, u128, u128, 48, false);
    fixed_type!(U64F64, u128, u128, 64, false);
    macro_rules! signed_type { ($N:ident, $U:ident) => {
    impl Neg for $N { type Output = $N; fn neg(self) -> $N { self.checked_neg().expect("overflow") } }
    impl<'a> Neg for &'a $N { type Output = $N; fn neg(self) -> $N { self.checked_neg().expect("overflow") } }
    impl $N {
        pub const fn is_negative(self) -> bool { self.bits < 0 }
        pub const fn is_positive(self) -> bool { self.bits > 0 }
        pub fn abs(self) -> Self { self.checked_abs().expect("overflow") }
        pub const fn checked_abs(self) -> Option<Self> { match self.bits.checked_abs() { Some(bits) => Some(Self { bits }), None => None } }
        pub fn saturating_abs(self) -> Self { self.checked_abs().unwrap_or(Self::MAX) }
        pub const fn wrapping_abs(self) -> Self { Self { bits: self.bits.wrapping_abs() } }
        pub const fn signum(self) -> Self { if self.bits > 0 { Self::ONE } else if self.bits < 0 { Self { bits: -Self::ONE.bits } } else { Self::ZERO } }
        pub const fn unsigned_abs(self) -> $U { $U { bits: self.bits.unsigned_abs() } }
        pub const fn abs_diff(self, o: Self) -> $U { $U { bits: self.bits.abs_diff(o.bits) } }
        pub const NEG_ONE: $N = $N { bits: -$N::ONE.bits };
    }
    }}
    signed_type!(I80F48, U80F48);
    signed_type!(I64F64, U64F64);
    macro_rules! from_int { ($N:ident: $($t:ty)*) => {$(impl From<$t> for $N { fn from(v: $t) -> Self { $N::from_num(v) } })*} }
    from_int!(I80F48: bool u8 u16 u32 u64 i8 i16 i32 i64);
    from_int!(U80F48: bool u8 u16 u32 u64);
    from_int!(U64F64: bool u8 u16 u32 u64);
    from_int!(I64F64: bool u8 u16 u32 i8 i16 i32 i64);
}
pub use types::*;
