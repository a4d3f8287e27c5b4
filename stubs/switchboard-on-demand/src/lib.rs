//! Offline stand-in for switchboard-on-demand.
use std::fmt;
#[derive(Debug)]
pub struct DecErr;
impl fmt::Display for DecErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "decimal") } }
#[derive(Clone, Copy, Debug)]
pub struct Decimal(pub f64);
impl TryFrom<Decimal> for f64 { type Error = DecErr; fn try_from(d: Decimal) -> Result<f64, DecErr> { if d.0.is_finite() { Ok(d.0) } else { Err(DecErr) } } }
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct CurrentResult { pub value: i128, pub std_dev: i128, pub mean: i128, pub range: i128, pub min_value: i128, pub max_value: i128, pub num_samples: u64, pub slot: u64, pub min_slot: u64, pub max_slot: u64 }
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct PullFeedAccountData { pub result: CurrentResult }
unsafe impl bytemuck::Zeroable for PullFeedAccountData {}
unsafe impl bytemuck::Pod for PullFeedAccountData {}
impl PullFeedAccountData {
    pub fn value(&self) -> Option<Decimal> { Some(Decimal(self.result.value as f64 / 1e18)) }
    pub fn std_dev(&self) -> Option<Decimal> { Some(Decimal(self.result.std_dev as f64 / 1e18)) }
}
