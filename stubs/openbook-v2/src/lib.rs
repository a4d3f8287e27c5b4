//! Offline stand-in for openbook-v2.
use anchor_lang::prelude::*;
declare_id!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");
pub mod program {
    #[derive(Clone)]
    pub struct OpenbookV2;
    impl anchor_lang::Id for OpenbookV2 { fn id() -> anchor_lang::prelude::Pubkey { crate::ID } }
}
pub mod state {
    use super::*;
    #[account(zero_copy)]
    pub struct Market {
        pub market_authority: Pubkey, pub bids: Pubkey, pub asks: Pubkey, pub event_heap: Pubkey,
        pub base_mint: Pubkey, pub quote_mint: Pubkey, pub market_base_vault: Pubkey, pub market_quote_vault: Pubkey,
    }
    #[derive(AnchorSerialize, AnchorDeserialize, Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Side { Bid = 0, Ask = 1 }
}
