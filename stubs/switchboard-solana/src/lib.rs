//! Offline stand-in for switchboard-solana (switchboard_v2).
use std::fmt;
#[derive(Debug)]
pub struct SwitchboardError;
impl fmt::Display for SwitchboardError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "switchboard") } }
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct SwitchboardDecimal { pub mantissa: i128, pub scale: u32, pub _pad: [u32; 3] }
unsafe impl bytemuck::Zeroable for SwitchboardDecimal {}
unsafe impl bytemuck::Pod for SwitchboardDecimal {}
impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = SwitchboardError;
    fn try_from(d: SwitchboardDecimal) -> Result<f64, SwitchboardError> { Ok(d.mantissa as f64 / 10f64.powi(d.scale as i32)) }
}
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct AggregatorRound { pub num_success: u64, pub round_open_slot: u64, pub result: SwitchboardDecimal, pub std_deviation: SwitchboardDecimal, pub min_response: SwitchboardDecimal, pub max_response: SwitchboardDecimal }
unsafe impl bytemuck::Zeroable for AggregatorRound {}
unsafe impl bytemuck::Pod for AggregatorRound {}
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct AggregatorAccountData { pub latest_confirmed_round: AggregatorRound }
unsafe impl bytemuck::Zeroable for AggregatorAccountData {}
unsafe impl bytemuck::Pod for AggregatorAccountData {}
impl AggregatorAccountData { pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> { Ok(self.latest_confirmed_round.result) } }
