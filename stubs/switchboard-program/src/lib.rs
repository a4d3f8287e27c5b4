//! Offline stand-in for switchboard-program.
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult { pub num_success: i32, pub num_error: i32, pub result: f64, pub round_open_slot: u64, pub round_open_timestamp: i64, pub min_response: f64, pub max_response: f64, pub decimals: u32 }
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResultAccountData { pub parent: [u8; 32], pub result: FastRoundResult }
#[derive(Debug)]
pub struct SbError;
impl FastRoundResultAccountData { pub fn deserialize(_b: &[u8]) -> Result<Self, SbError> { Err(SbError) } }
