//! Offline stand-in for pyth-sdk-solana.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price { pub price: i64, pub conf: u64, pub expo: i32, pub publish_time: i64 }
pub mod state {
    pub const MAGIC: u32 = 0xa1b2c3d4;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(u32)]
    pub enum PriceStatus { Unknown = 0, Trading = 1, Halted = 2, Auction = 3, Ignored = 4 }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceInfo { pub price: i64, pub conf: u64, pub status: PriceStatus, pub corp_act: u32, pub pub_slot: u64 }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32, pub ver: u32, pub atype: u32, pub size: u32, pub ptype: u32, pub expo: i32, pub num: u32, pub num_qt: u32,
        pub last_slot: u64, pub valid_slot: u64, pub timestamp: i64, pub prev_slot: u64, pub prev_price: i64, pub prev_conf: u64, pub prev_timestamp: i64,
        pub agg: PriceInfo,
    }
    #[derive(Debug)]
    pub struct PythError;
    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, PythError> {
        if data.len() < std::mem::size_of::<PriceAccount>() { return Err(PythError); }
        let p = data.as_ptr();
        if p as usize % 8 != 0 { return Err(PythError); }
        Ok(unsafe { &*(p as *const PriceAccount) })
    }
}
