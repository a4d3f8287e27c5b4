//! Offline stand-in for default-env.
#[macro_export]
macro_rules! default_env { ($n:expr, $d:expr) => { $d } }
