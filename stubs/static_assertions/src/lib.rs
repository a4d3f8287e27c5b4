//! Offline stand-in for static_assertions (same expansion for the two macros mango-v4 uses).
#![no_std]
#[macro_export]
macro_rules! const_assert { ($x:expr $(,)?) => { #[allow(unknown_lints, eq_op)] const _: [(); 0 - !{ const ASSERT: bool = $x; ASSERT } as usize] = []; } }
#[macro_export]
macro_rules! const_assert_eq { ($x:expr, $y:expr $(,)?) => { $crate::const_assert!($x == $y); } }
#[macro_export]
macro_rules! const_assert_ne { ($x:expr, $y:expr $(,)?) => { $crate::const_assert!($x != $y); } }
