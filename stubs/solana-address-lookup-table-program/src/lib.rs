//! Offline stand-in for solana-address-lookup-table-program.
solana_program::declare_id!("AddressLookupTab1e1111111111111111111111111");
pub mod state {
    use solana_program::pubkey::Pubkey;
    pub const LOOKUP_TABLE_META_SIZE: usize = 56;
    #[derive(Default)]
    pub struct LookupTableMeta { pub deactivation_slot: u64, pub last_extended_slot: u64, pub authority: Option<Pubkey> }
    pub struct AddressLookupTable<'a> { pub meta: LookupTableMeta, pub addresses: &'a [Pubkey] }
    impl<'a> AddressLookupTable<'a> {
        pub fn deserialize(data: &'a [u8]) -> Result<AddressLookupTable<'a>, solana_program::instruction::InstructionError> {
            if data.len() < LOOKUP_TABLE_META_SIZE { return Err(solana_program::instruction::InstructionError::InvalidAccountData); }
            Ok(Self { meta: LookupTableMeta::default(), addresses: &[] })
        }
    }
}
pub mod instruction {
    use solana_program::{instruction::Instruction, pubkey::Pubkey};
    pub fn extend_lookup_table(table: Pubkey, _authority: Pubkey, _payer: Option<Pubkey>, _new: Vec<Pubkey>) -> Instruction {
        Instruction { program_id: crate::ID, accounts: vec![solana_program::instruction::AccountMeta::new(table, false)], data: vec![] }
    }
}
