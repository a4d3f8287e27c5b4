//! Offline stand-in for openbook-dex/program (serum_dex): types and signatures used by mango-v4.
#![allow(clippy::all, dead_code)]
pub mod matching {
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, IntoPrimitive, TryFromPrimitive)]
    #[repr(u8)]
    pub enum Side { Bid = 0, Ask = 1 }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, IntoPrimitive, TryFromPrimitive)]
    #[repr(u8)]
    pub enum OrderType { Limit = 0, ImmediateOrCancel = 1, PostOnly = 2 }
}
pub mod critbit {
    #[repr(transparent)]
    pub struct Slab([u8]);
    pub struct SlabHeader;
    pub type NodeHandle = u32;
    pub struct LeafNode;
    impl LeafNode { pub fn key(&self) -> u128 { 0 } }
    impl Slab {
        pub fn new(bytes: &mut [u8]) -> &mut Self { unsafe { &mut *(bytes as *mut [u8] as *mut Slab) } }
        pub fn find_by_key(&self, _key: u128) -> Option<NodeHandle> { None }
        pub fn find_max(&self) -> Option<NodeHandle> { None }
        pub fn find_min(&self) -> Option<NodeHandle> { None }
    }
}
pub mod instruction {
    use super::matching::*;
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    use std::num::NonZeroU64;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, IntoPrimitive, TryFromPrimitive)]
    #[repr(u8)]
    pub enum SelfTradeBehavior { DecrementTake = 0, CancelProvide = 1, AbortTransaction = 2 }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct NewOrderInstructionV3 {
        pub side: Side,
        pub limit_price: NonZeroU64,
        pub max_coin_qty: NonZeroU64,
        pub max_native_pc_qty_including_fees: NonZeroU64,
        pub self_trade_behavior: SelfTradeBehavior,
        pub order_type: OrderType,
        pub client_order_id: u64,
        pub limit: u16,
        pub max_ts: i64,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CancelOrderInstructionV2 { pub side: Side, pub order_id: u128 }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum MarketInstruction {
        NewOrderV3(NewOrderInstructionV3),
        CancelOrderV2(CancelOrderInstructionV2),
        CancelOrderByClientIdV2(u64),
        SettleFunds,
        InitOpenOrders,
        CloseOpenOrders,
        Prune(u16),
    }
    impl MarketInstruction { pub fn pack(&self) -> Vec<u8> { vec![] } }
}
pub mod state {
    use solana_program::pubkey::Pubkey;
    pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
    pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";
    pub trait ToAlignedBytes { fn to_aligned_bytes(&self) -> [u64; 4]; }
    impl ToAlignedBytes for Pubkey { fn to_aligned_bytes(&self) -> [u64; 4] { bytemuck::cast(self.to_bytes()) } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(u64)]
    pub enum AccountFlag {
        Initialized = 1, Market = 2, OpenOrders = 4, RequestQueue = 8, EventQueue = 16,
        Bids = 32, Asks = 64, Disabled = 128, Closed = 256, Permissioned = 512, CrankAuthorityRequired = 1024,
    }
    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct MarketState {
        pub account_flags: u64, pub own_address: [u64; 4], pub vault_signer_nonce: u64,
        pub coin_mint: [u64; 4], pub pc_mint: [u64; 4], pub coin_vault: [u64; 4],
        pub coin_deposits_total: u64, pub coin_fees_accrued: u64, pub pc_vault: [u64; 4],
        pub pc_deposits_total: u64, pub pc_fees_accrued: u64, pub pc_dust_threshold: u64,
        pub req_q: [u64; 4], pub event_q: [u64; 4], pub bids: [u64; 4], pub asks: [u64; 4],
        pub coin_lot_size: u64, pub pc_lot_size: u64, pub fee_rate_bps: u64, pub referrer_rebates_accrued: u64,
    }
    unsafe impl bytemuck::Zeroable for MarketState {}
    unsafe impl bytemuck::Pod for MarketState {}
    impl MarketState { pub fn check_flags(&self, _allow_disabled: bool) -> Result<(), u32> { Ok(()) } }
    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct OpenOrders {
        pub account_flags: u64, pub market: [u64; 4], pub owner: [u64; 4],
        pub native_coin_free: u64, pub native_coin_total: u64, pub native_pc_free: u64, pub native_pc_total: u64,
        pub free_slot_bits: u128, pub is_bid_bits: u128, pub orders: [u128; 128], pub client_order_ids: [u64; 128],
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl bytemuck::Zeroable for OpenOrders {}
    unsafe impl bytemuck::Pod for OpenOrders {}
}
