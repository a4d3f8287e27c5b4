//! Offline stand-in for solana-security-txt.
#[macro_export]
macro_rules! security_txt { ($($t:tt)*) => {} }
