//! A small in-process ledger: runs the program's real entry point (`mango_v4::entry`) on accounts laid out like the
//! runtime does, with the real spl-token processor and a system program behind the CPI syscall. Nothing touches the system.
pub use anchor_lang::prelude::Pubkey;
pub use anchor_lang::{InstructionData, ToAccountMetas};
pub use fixed::types::I80F48;
pub use mango_v4::state::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_pack::Pack;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub use mango_v4;
pub use solana_program;
pub type R = Result<(), String>;

static TS: AtomicU64 = AtomicU64::new(1_700_000_000);
static SLOT: AtomicU64 = AtomicU64::new(1000);

#[derive(Clone, Default)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub exe: bool,
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if std::env::var("DEMO_LOG").is_ok() {
            println!("  log: {}", m);
        }
    }
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_stack_height(&self) -> u64 {
        1
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = solana_program::clock::Clock { slot: SLOT.load(Ordering::SeqCst), unix_timestamp: TS.load(Ordering::SeqCst) as i64, ..Default::default() };
        unsafe { *(p as *mut solana_program::clock::Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let pdas: Vec<Pubkey> = seeds.iter().map(|s| Pubkey::create_program_address(s, &mango_v4::id()).unwrap()).collect();
        let mut accs = vec![];
        for m in &ix.accounts {
            let mut a = infos.iter().find(|a| *a.key == m.pubkey).cloned().ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !a.is_signer && !pdas.contains(&m.pubkey) {
                println!("  cpi: missing signature");
                return Err(ProgramError::MissingRequiredSignature);
            }
            a.is_signer = m.is_signer;
            a.is_writable = m.is_writable;
            accs.push(a);
        }
        if ix.program_id == spl_token::id() {
            spl_token::processor::Processor::process(&ix.program_id, &accs, &ix.data)
        } else if ix.program_id == solana_program::system_program::id() {
            system(&accs, &ix.data)
        } else {
            println!("  cpi: unknown program {}", ix.program_id);
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

fn mv(a: &AccountInfo, b: &AccountInfo, n: u64) {
    **a.lamports.borrow_mut() -= n;
    **b.lamports.borrow_mut() += n;
}

fn system(a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let u = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    match d[0] {
        0 => {
            mv(&a[0], &a[1], u(4));
            a[1].realloc(u(12) as usize, true)?;
            a[1].assign(&Pubkey::new_from_array(d[20..52].try_into().unwrap()));
        }
        1 => a[0].assign(&Pubkey::new_from_array(d[4..36].try_into().unwrap())),
        2 => mv(&a[0], &a[1], u(4)),
        8 => a[0].realloc(u(4) as usize, true)?,
        _ => return Err(ProgramError::InvalidInstructionData),
    }
    Ok(())
}

pub struct Sim {
    pub m: BTreeMap<Pubkey, Acc>,
    pub group: Pubkey,
    pub admin: Pubkey,
    pub payer: Pubkey,
    pub insurance_vault: Pubkey,
    n: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub index: u16,
    pub mint: Pubkey,
    pub oracle: Pubkey,
    pub bank: Pubkey,
    pub vault: Pubkey,
    pub mint_info: Pubkey,
}

#[derive(Clone, Copy, Debug)]
pub struct Perp {
    pub index: u16,
    pub oracle: Pubkey,
    pub market: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub event_queue: Pubkey,
}

pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &mango_v4::id()).0
}

pub fn sys() -> Pubkey {
    solana_program::system_program::id()
}
pub fn rent() -> Pubkey {
    solana_program::sysvar::rent::id()
}
pub fn tokp() -> Pubkey {
    spl_token::id()
}

impl Sim {
    pub fn new() -> Self {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|i| {
            if std::env::var("DEMO_LOG").is_ok() {
                println!("  panic: {}", i);
            }
        }));
        let mut s = Sim { m: BTreeMap::new(), group: Pubkey::default(), admin: Pubkey::default(), payer: Pubkey::default(), insurance_vault: Pubkey::default(), n: 0 };
        for p in [sys(), tokp(), mango_v4::id(), Pubkey::default()] {
            s.m.insert(p, Acc { lamports: 1, owner: sys(), data: vec![], exe: true });
        }
        let mut rd = vec![0u8; 17];
        rd[0..8].copy_from_slice(&3480u64.to_le_bytes());
        rd[8..16].copy_from_slice(&2f64.to_le_bytes());
        rd[16] = 50;
        s.m.insert(rent(), Acc { lamports: 1, owner: solana_program::sysvar::id(), data: rd, exe: false });
        s.admin = s.wallet();
        s.payer = s.wallet();
        s
    }
    pub fn fresh(&mut self) -> Pubkey {
        self.n += 1;
        let mut b = [7u8; 32];
        b[0..8].copy_from_slice(&self.n.to_le_bytes());
        Pubkey::new_from_array(b)
    }
    pub fn wallet(&mut self) -> Pubkey {
        let k = self.fresh();
        self.m.insert(k, Acc { lamports: 1 << 50, owner: sys(), data: vec![], exe: false });
        k
    }
    pub fn now(&self) -> u64 {
        TS.load(Ordering::SeqCst)
    }
    pub fn advance(&self, secs: u64) {
        TS.fetch_add(secs, Ordering::SeqCst);
        SLOT.fetch_add(secs * 2, Ordering::SeqCst);
    }
    pub fn slot(&self) -> u64 {
        SLOT.load(Ordering::SeqCst)
    }

    /// Runs one instruction of the program; on failure nothing changes.
    pub fn raw(&mut self, metas: &[AccountMeta], ixdata: &[u8]) -> R {
        let mut buf: Vec<u8> = vec![];
        let mut seen: Vec<Pubkey> = vec![];
        let mut offs: Vec<(Pubkey, usize)> = vec![];
        buf.extend((metas.len() as u64).to_le_bytes());
        for mt in metas {
            if let Some(i) = seen.iter().position(|k| *k == mt.pubkey) {
                buf.push(i as u8);
                buf.extend([0u8; 7]);
                seen.push(mt.pubkey);
                continue;
            }
            seen.push(mt.pubkey);
            let signer = metas.iter().any(|x| x.pubkey == mt.pubkey && x.is_signer);
            let wr = metas.iter().any(|x| x.pubkey == mt.pubkey && x.is_writable);
            let a = self.m.entry(mt.pubkey).or_default().clone();
            buf.extend([255u8, signer as u8, wr as u8, a.exe as u8, 0, 0, 0, 0]);
            buf.extend(mt.pubkey.to_bytes());
            offs.push((mt.pubkey, buf.len()));
            buf.extend(a.owner.to_bytes());
            buf.extend(a.lamports.to_le_bytes());
            buf.extend((a.data.len() as u64).to_le_bytes());
            buf.extend(&a.data);
            buf.extend(vec![0u8; 10240]);
            while buf.len() % 8 != 0 {
                buf.push(0);
            }
            buf.extend(0u64.to_le_bytes());
        }
        buf.extend((ixdata.len() as u64).to_le_bytes());
        buf.extend(ixdata);
        buf.extend(mango_v4::id().to_bytes());
        // 8-aligned copy
        let mut al: Vec<u64> = vec![0; buf.len() / 8 + 2];
        let p = al.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(buf.as_ptr(), p, buf.len()) };
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let (pid, infos, data) = unsafe { solana_program::entrypoint::deserialize(p) };
            let r = mango_v4::entry(pid, &infos, data).map_err(|e| format!("{:?}", e));
            // the runtime's own rules: only writable accounts change, lamports are conserved
            r
        }));
        match res {
            Err(_) => return Err("panic".into()),
            Ok(Err(e)) => return Err(e),
            Ok(Ok(())) => {}
        }
        let mem = unsafe { std::slice::from_raw_parts(p, buf.len()) };
        for (k, o) in offs {
            let e = self.m.get_mut(&k).unwrap();
            let owner = Pubkey::new_from_array(mem[o..o + 32].try_into().unwrap());
            let lam = u64::from_le_bytes(mem[o + 32..o + 40].try_into().unwrap());
            let len = u64::from_le_bytes(mem[o + 40..o + 48].try_into().unwrap()) as usize;
            let data = mem[o + 48..o + 48 + len].to_vec();
            let wr = metas.iter().any(|x| x.pubkey == k && x.is_writable);
            if !wr && (data != e.data || owner != e.owner) {
                return Err(format!("runtime: read-only account {} changed", k));
            }
            *e = Acc { lamports: lam, owner, data, exe: e.exe };
        }
        Ok(())
    }
    pub fn ix(&mut self, accounts: impl ToAccountMetas, args: impl InstructionData) -> R {
        self.raw(&accounts.to_account_metas(None), &args.data())
    }
    pub fn ixr(&mut self, accounts: impl ToAccountMetas, rem: Vec<AccountMeta>, args: impl InstructionData) -> R {
        let mut m = accounts.to_account_metas(None);
        m.extend(rem);
        self.raw(&m, &args.data())
    }

    // ---- tokens
    pub fn mint(&mut self, decimals: u8) -> Pubkey {
        let k = self.fresh();
        let mut d = vec![0u8; spl_token::state::Mint::LEN];
        spl_token::state::Mint { mint_authority: Some(self.admin).into(), supply: u64::MAX / 2, decimals, is_initialized: true, freeze_authority: None.into() }.pack_into_slice(&mut d);
        self.m.insert(k, Acc { lamports: 1 << 40, owner: tokp(), data: d, exe: false });
        k
    }
    pub fn token_account(&mut self, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let k = self.fresh();
        self.put_token_account(k, mint, owner, amount);
        k
    }
    pub fn put_token_account(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut d = vec![0u8; spl_token::state::Account::LEN];
        spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
        self.m.insert(k, Acc { lamports: 1 << 40, owner: tokp(), data: d, exe: false });
    }
    pub fn balance(&self, k: Pubkey) -> u64 {
        spl_token::state::Account::unpack(&self.m[&k].data).unwrap().amount
    }

    // ---- zero-copy state access
    pub fn get<T: bytemuck::Pod>(&self, k: Pubkey) -> T {
        bytemuck::pod_read_unaligned(&self.m[&k].data[8..8 + std::mem::size_of::<T>()])
    }
    pub fn edit<T: bytemuck::Pod>(&mut self, k: Pubkey, f: impl FnOnce(&mut T)) {
        let mut t: T = self.get(k);
        f(&mut t);
        let n = std::mem::size_of::<T>();
        self.m.get_mut(&k).unwrap().data[8..8 + n].copy_from_slice(bytemuck::bytes_of(&t));
    }
    pub fn account(&self, k: Pubkey) -> MangoAccountValue {
        let d: Vec<u8> = self.m[&k].data[8..].to_vec();
        let mut al: Vec<u64> = vec![0; d.len() / 8 + 1];
        let p = al.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len()) };
        MangoAccountValue::from_bytes(unsafe { std::slice::from_raw_parts(p, d.len()) }).unwrap()
    }
    pub fn edit_account(&mut self, k: Pubkey, f: impl FnOnce(&mut MangoAccountValue)) {
        let mut a = self.account(k);
        f(&mut a);
        let n = std::mem::size_of::<MangoAccountFixed>();
        let d = &mut self.m.get_mut(&k).unwrap().data;
        d[8..8 + n].copy_from_slice(bytemuck::bytes_of(&a.fixed));
        d[8 + n..].copy_from_slice(&a.dynamic);
    }
    /// Native token balance of an account.
    pub fn native(&self, acc: Pubkey, t: Tok) -> I80F48 {
        let a = self.account(acc);
        let b: Bank = self.get(t.bank);
        a.token_position(t.index).map(|p| p.native(&b)).unwrap_or(I80F48::ZERO)
    }

    // ---- world building, all through real instructions
    pub fn setup(&mut self) -> Tok {
        let m = self.mint(6);
        self.group = pda(&[b"Group", self.admin.as_ref(), &0u32.to_le_bytes()]);
        self.insurance_vault = pda(&[b"InsuranceVault", self.group.as_ref()]);
        let (group, creator, payer, iv) = (self.group, self.admin, self.payer, self.insurance_vault);
        self.ix(
            mango_v4::accounts::GroupCreate { group, creator, insurance_mint: m, insurance_vault: iv, payer, token_program: tokp(), system_program: sys(), rent: rent() },
            mango_v4::instruction::GroupCreate { group_num: 0, testing: 1, version: 2 },
        )
        .expect("group_create");
        self.token(0, m, 1.0)
    }
    pub fn oracle(&mut self, mint: Pubkey, price: f64) -> Pubkey {
        let o = self.wallet();
        let (group, admin, payer) = (self.group, self.admin, self.payer);
        self.m.remove(&o);
        let mut metas = mango_v4::accounts::StubOracleCreate { group, oracle: o, admin, mint, payer, system_program: sys() }.to_account_metas(None);
        for x in metas.iter_mut() {
            if x.pubkey == o {
                x.is_signer = true;
            }
        }
        self.raw(&metas, &mango_v4::instruction::StubOracleCreate { price: I80F48::from_num(price) }.data()).expect("stub_oracle_create");
        o
    }
    pub fn set_price(&mut self, o: Pubkey, price: f64) {
        let (group, admin) = (self.group, self.admin);
        self.ix(mango_v4::accounts::StubOracleSet { group, oracle: o, admin }, mango_v4::instruction::StubOracleSet { price: I80F48::from_num(price) }).expect("stub_oracle_set");
    }
    pub fn token(&mut self, index: u16, mint: Pubkey, price: f64) -> Tok {
        let oracle = self.oracle(mint, price);
        let g = self.group;
        let bank = pda(&[b"Bank", g.as_ref(), &index.to_le_bytes(), &0u32.to_le_bytes()]);
        let vault = pda(&[b"Vault", g.as_ref(), &index.to_le_bytes(), &0u32.to_le_bytes()]);
        let mint_info = pda(&[b"MintInfo", g.as_ref(), mint.as_ref()]);
        let (admin, payer) = (self.admin, self.payer);
        self.ix(
            mango_v4::accounts::TokenRegister { group: g, admin, mint, bank, vault, mint_info, oracle, fallback_oracle: Pubkey::default(), payer, token_program: tokp(), system_program: sys(), rent: rent() },
            mango_v4::instruction::TokenRegister {
                token_index: index,
                name: format!("T{}", index),
                oracle_config: OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None },
                interest_rate_params: mango_v4::accounts_ix::InterestRateParams { util0: 0.4, rate0: 0.07, util1: 0.8, rate1: 0.9, max_rate: 1.5, adjustment_factor: 0.004 },
                loan_fee_rate: 0.0005,
                loan_origination_fee_rate: 0.0005,
                maint_asset_weight: if index == 0 { 1.0 } else { 0.8 },
                init_asset_weight: if index == 0 { 1.0 } else { 0.6 },
                maint_liab_weight: if index == 0 { 1.0 } else { 1.2 },
                init_liab_weight: if index == 0 { 1.0 } else { 1.4 },
                liquidation_fee: 0.02,
                stable_price_delay_interval_seconds: 60 * 60,
                stable_price_delay_growth_limit: 0.06,
                stable_price_growth_limit: 0.0003,
                min_vault_to_deposits_ratio: 0.0,
                net_borrow_limit_window_size_ts: 24 * 60 * 60,
                net_borrow_limit_per_window_quote: -1,
                borrow_weight_scale_start_quote: f64::MAX,
                deposit_weight_scale_start_quote: f64::MAX,
                reduce_only: 0,
                token_conditional_swap_taker_fee_rate: 0.0,
                token_conditional_swap_maker_fee_rate: 0.0,
                flash_loan_swap_fee_rate: 0.0,
                interest_curve_scaling: 1.0,
                interest_target_utilization: 0.5,
                group_insurance_fund: true,
                deposit_limit: 0,
                zero_util_rate: 0.0,
                platform_liquidation_fee: 0.0,
                disable_asset_liquidation: false,
                collateral_fee_per_day: 0.0,
                tier: "A".into(),
            },
        )
        .expect("token_register");
        Tok { index, mint, oracle, bank, vault, mint_info }
    }
    pub fn new_token(&mut self, index: u16, price: f64) -> Tok {
        let m = self.mint(6);
        self.token(index, m, price)
    }
    pub fn mango_account(&mut self, owner: Pubkey, num: u32) -> Pubkey {
        let account = pda(&[b"MangoAccount", self.group.as_ref(), owner.as_ref(), &num.to_le_bytes()]);
        let (group, payer) = (self.group, self.payer);
        self.ix(
            mango_v4::accounts::AccountCreateV2 { group, account, owner, payer, system_program: sys() },
            mango_v4::instruction::AccountCreateV2 { account_num: num, token_count: 8, serum3_count: 4, perp_count: 4, perp_oo_count: 8, token_conditional_swap_count: 4, name: "a".into() },
        )
        .expect("account_create_v2");
        account
    }
    /// Health accounts in the order the program expects: banks, bank oracles, perp markets, perp oracles.
    pub fn health(&self, acc: &[Pubkey], extra: &[Pubkey], toks: &[Tok], perps: &[Perp]) -> Vec<AccountMeta> {
        let mut ti: Vec<Tok> = vec![];
        let mut pi: Vec<Perp> = vec![];
        for k in acc {
            let a = self.account(*k);
            for p in a.active_token_positions() {
                let t = *toks.iter().find(|t| t.index == p.token_index).unwrap();
                if !ti.iter().any(|x| x.bank == t.bank) {
                    ti.push(t);
                }
            }
            for p in a.active_perp_positions() {
                let t = *perps.iter().find(|t| t.index == p.market_index).unwrap();
                if !pi.iter().any(|x| x.market == t.market) {
                    pi.push(t);
                }
            }
        }
        for e in extra {
            if let Some(t) = toks.iter().find(|t| t.bank == *e) {
                if !ti.iter().any(|x| x.bank == t.bank) {
                    ti.push(*t);
                }
            }
            if let Some(t) = perps.iter().find(|t| t.market == *e) {
                if !pi.iter().any(|x| x.market == t.market) {
                    pi.push(*t);
                }
            }
        }
        let ro = |k: Pubkey| AccountMeta { pubkey: k, is_signer: false, is_writable: false };
        let wr = |k: Pubkey| AccountMeta { pubkey: k, is_signer: false, is_writable: true };
        let mut v = vec![];
        v.extend(ti.iter().map(|t| wr(t.bank)));
        v.extend(ti.iter().map(|t| ro(t.oracle)));
        v.extend(pi.iter().map(|t| wr(t.market)));
        v.extend(pi.iter().map(|t| ro(t.oracle)));
        v
    }
    pub fn deposit(&mut self, acc: Pubkey, owner: Pubkey, t: Tok, amount: u64, toks: &[Tok], perps: &[Perp]) -> R {
        let ta = self.token_account(t.mint, owner, amount);
        let rem = self.health(&[acc], &[t.bank], toks, perps);
        let group = self.group;
        self.ixr(
            mango_v4::accounts::TokenDeposit { group, account: acc, owner, bank: t.bank, vault: t.vault, oracle: t.oracle, token_account: ta, token_authority: owner, token_program: tokp() },
            rem,
            mango_v4::instruction::TokenDeposit { amount: amount, reduce_only: false },
        )
    }
    pub fn withdraw(&mut self, acc: Pubkey, owner: Pubkey, t: Tok, amount: u64, borrow: bool, toks: &[Tok], perps: &[Perp]) -> Result<Pubkey, String> {
        let ta = self.token_account(t.mint, owner, 0);
        let rem = self.health(&[acc], &[t.bank], toks, perps);
        let group = self.group;
        self.ixr(
            mango_v4::accounts::TokenWithdraw { group, account: acc, owner, bank: t.bank, vault: t.vault, oracle: t.oracle, token_account: ta, token_program: tokp() },
            rem,
            mango_v4::instruction::TokenWithdraw { amount: amount, allow_borrow: borrow },
        )
        .map(|_| ta)
    }
    pub fn perp(&mut self, index: u16, price: f64) -> Perp {
        let m = self.mint(6);
        let oracle = self.oracle(m, price);
        let g = self.group;
        let market = pda(&[b"PerpMarket", g.as_ref(), &index.to_le_bytes()]);
        let mut zero = |n: usize| {
            let k = self.fresh();
            self.m.insert(k, Acc { lamports: 1 << 50, owner: mango_v4::id(), data: vec![0; 8 + n], exe: false });
            k
        };
        let bids = zero(std::mem::size_of::<BookSide>());
        let asks = zero(std::mem::size_of::<BookSide>());
        let event_queue = zero(std::mem::size_of::<EventQueue>());
        let (admin, payer) = (self.admin, self.payer);
        self.ix(
            mango_v4::accounts::PerpCreateMarket { group: g, admin, oracle, perp_market: market, bids, asks, event_queue, payer, system_program: sys() },
            mango_v4::instruction::PerpCreateMarket {
                perp_market_index: index,
                name: "P".into(),
                oracle_config: OracleConfigParams { conf_filter: 0.1, max_staleness_slots: None },
                base_decimals: 6,
                quote_lot_size: 10,
                base_lot_size: 100,
                maint_base_asset_weight: 0.9,
                init_base_asset_weight: 0.8,
                maint_base_liab_weight: 1.1,
                init_base_liab_weight: 1.2,
                maint_overall_asset_weight: 1.0,
                init_overall_asset_weight: 1.0,
                base_liquidation_fee: 0.05,
                maker_fee: 0.0,
                taker_fee: 0.001,
                min_funding: -0.05,
                max_funding: 0.05,
                impact_quantity: 10,
                group_insurance_fund: true,
                fee_penalty: 0.0,
                settle_fee_flat: 0.0,
                settle_fee_amount_threshold: 0.0,
                settle_fee_fraction_low_health: 0.0,
                settle_token_index: 0,
                settle_pnl_limit_factor: 0.2,
                settle_pnl_limit_window_size_ts: 24 * 60 * 60,
                positive_pnl_liquidation_fee: 0.1,
                platform_liquidation_fee: 0.0,
            },
        )
        .expect("perp_create_market");
        Perp { index, oracle, market, bids, asks, event_queue }
    }
    pub fn perp_order(&mut self, acc: Pubkey, owner: Pubkey, p: Perp, bid: bool, price_lots: i64, base_lots: i64, toks: &[Tok], perps: &[Perp]) -> R {
        let group = self.group;
        let rem = self.health(&[acc], &[toks[0].bank, p.market], toks, perps);
        self.ixr(
            mango_v4::accounts::PerpPlaceOrder { group, account: acc, owner, perp_market: p.market, bids: p.bids, asks: p.asks, event_queue: p.event_queue, oracle: p.oracle },
            rem,
            mango_v4::instruction::PerpPlaceOrder {
                side: if bid { Side::Bid } else { Side::Ask },
                price_lots: price_lots,
                max_base_lots: base_lots,
                max_quote_lots: i64::MAX / 1_000_000,
                client_order_id: 1,
                order_type: PlaceOrderType::Limit,
                reduce_only: false,
                expiry_timestamp: 0,
                limit: 10,
            },
        )
    }
    pub fn consume(&mut self, p: Perp, accs: &[Pubkey]) -> R {
        let group = self.group;
        let rem = accs.iter().map(|k| AccountMeta { pubkey: *k, is_signer: false, is_writable: true }).collect();
        self.ixr(
            mango_v4::accounts::PerpConsumeEvents { group, perp_market: p.market, event_queue: p.event_queue },
            rem,
            mango_v4::instruction::PerpConsumeEvents { limit: 8 },
        )
    }
}

/// The verdict of a demonstration: the process exits 1 when the guarantee is broken.
pub fn expect(ok: bool, what: &str) {
    if ok {
        println!("ok: {}", what);
    } else {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
