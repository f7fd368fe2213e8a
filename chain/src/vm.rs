//! The Solana VM with the program built from /repo and the real token programs.
use {
    mollusk_svm::{program::loader_keys::LOADER_V3, Mollusk},
    solana_account::Account,
    solana_instruction::{error::InstructionError, Instruction},
    solana_pubkey::Pubkey,
    solana_svm_log_collector::LogCollector,
    std::{cell::RefCell, collections::BTreeMap, rc::Rc},
};

pub const TW: Pubkey = Pubkey::from_str_const("TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR");
pub const SPL: Pubkey = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const T22: Pubkey = Pubkey::from_str_const("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA: Pubkey = Pubkey::from_str_const("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const MPL: Pubkey = Pubkey::from_str_const("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
pub const RENT: Pubkey = Pubkey::from_str_const("SysvarRent111111111111111111111111111111111");
pub const MOCK_META: Pubkey = Pubkey::new_from_array(*b"tw-mock-metadata-program........");
pub const MOCK_META2: Pubkey = Pubkey::new_from_array(*b"tw-mock-metadata-program-two....");
pub const MOCK_HOOK: Pubkey = Pubkey::new_from_array(*b"tw-mock-hook-program............");
/// Somebody's own copies of the token programs.
pub const COPY_SPL: Pubkey = Pubkey::new_from_array(*b"tw-copy-of-spl-token............");
pub const COPY_T22: Pubkey = Pubkey::new_from_array(*b"tw-copy-of-token-2022...........");
/// Calls other programs on behalf of whoever calls it, and of its own user address.
pub const PROXY: Pubkey = Pubkey::new_from_array(*b"tw-mock-calling-program.........");
pub const NATIVE: Pubkey = Pubkey::from_str_const("So11111111111111111111111111111111111111112");
pub const NATIVE22: Pubkey = Pubkey::from_str_const("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP");

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Deployment {
    Main,
    Compliance,
    NoExt,
}

pub struct Vm {
    pub m: Mollusk,
    pub log: Rc<RefCell<LogCollector>>,
    pub programs: BTreeMap<Pubkey, Account>,
    pub execs: u64,
    /// every instruction for the program also runs on a copy, called by another program
    pub mirror: bool,
    pub mirrored: Mirrored,
}

#[derive(Default)]
pub struct Mirrored {
    pub accepted: u64,
    pub refused: u64,
    pub skipped: u64,
    /// compared with a wallet in place of a program's address
    pub wallets: u64,
    pub differs: Option<String>,
}

pub struct Exec {
    pub result: Result<(), InstructionError>,
    pub post: Vec<(Pubkey, Account)>,
    pub cu: u64,
}

fn elf(path: &str) -> Vec<u8> {
    let p = if path.starts_with('/') { path.into() } else { crate::engine::verif_dir().join("build/sbf").join(path) };
    std::fs::read(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display()))
}

impl Vm {
    pub fn new(d: Deployment) -> Vm {
        let mut m = Mollusk::default();
        let fix = "/repo/program/tests/fixtures";
        let so = match d {
            Deployment::Main => "spl_token_wrap.so",
            Deployment::Compliance => "tw_fork_compliance.so",
            Deployment::NoExt => "tw_fork_noext.so",
        };
        m.add_program_with_loader_and_elf(&TW, &LOADER_V3, &elf(so));
        m.add_program_with_loader_and_elf(&T22, &LOADER_V3, &elf(&format!("{fix}/spl_token_2022.so")));
        m.add_program_with_loader_and_elf(&MPL, &LOADER_V3, &elf(&format!("{fix}/mpl_token_metadata.so")));
        m.add_program_with_loader_and_elf(&MOCK_META, &LOADER_V3, &elf("tw_mock_meta.so"));
        m.add_program_with_loader_and_elf(&MOCK_META2, &LOADER_V3, &elf("tw_mock_meta.so"));
        m.add_program_with_loader_and_elf(&MOCK_HOOK, &LOADER_V3, &elf("tw_mock_hook.so"));
        m.add_program_with_loader_and_elf(&COPY_T22, &LOADER_V3, &elf(&format!("{fix}/spl_token_2022.so")));
        m.add_program_with_loader_and_elf(&COPY_SPL, &LOADER_V3, mollusk_svm_programs_token::token::ELF);
        mollusk_svm_programs_token::token::add_program(&mut m);
        mollusk_svm_programs_token::associated_token::add_program(&mut m);
        let log = Rc::new(RefCell::new(LogCollector { bytes_limit: Some(20_000), ..LogCollector::default() }));
        m.logger = Some(log.clone());
        let mut programs = BTreeMap::new();
        for k in [TW, SPL, T22, ATA, MPL, MOCK_META, MOCK_META2, MOCK_HOOK, COPY_SPL, COPY_T22] {
            programs.insert(k, mollusk_svm::program::create_program_account_loader_v3(&k));
        }
        let (k, a) = mollusk_svm::program::keyed_account_for_system_program();
        programs.insert(k, a);
        let (k, a) = m.sysvars.keyed_account_for_rent_sysvar();
        programs.insert(k, a);
        Vm { m, log, programs, execs: 0, mirror: false, mirrored: Mirrored::default() }
    }
    pub fn with_proxy(&mut self) {
        if self.programs.insert(PROXY, mollusk_svm::program::create_program_account_loader_v3(&PROXY)).is_none() {
            self.m.add_program_with_loader_and_elf(&PROXY, &LOADER_V3, &elf("tw_mock_proxy.so"));
        }
    }
    pub fn reset(&mut self) {
        self.mirror = false;
        self.mirrored = Mirrored::default();
        self.m.sysvars.clock = Default::default();
        self.m.sysvars.clock.unix_timestamp = 1_700_000_000;
        self.set_epoch(0);
    }
    pub fn epoch(&self) -> u64 {
        self.m.sysvars.clock.epoch
    }
    pub fn set_epoch(&mut self, e: u64) {
        self.m.sysvars.clock.epoch = e;
    }
    pub fn rent(&self, len: usize) -> u64 {
        self.m.sysvars.rent.minimum_balance(len)
    }
    pub fn exec(&mut self, ix: &Instruction, accounts: &[(Pubkey, Account)]) -> Exec {
        self.execs += 1;
        {
            let mut l = self.log.borrow_mut();
            *l = LogCollector { bytes_limit: Some(20_000), ..LogCollector::default() };
        }
        // as the runtime does when it loads a transaction: sysvars, built-in
        // programs and invoked programs are never writable
        let demote = ix.accounts.iter().any(|m| m.is_writable && self.programs.contains_key(&m.pubkey));
        let r = if demote {
            let mut ix = ix.clone();
            for m in ix.accounts.iter_mut() {
                m.is_writable &= !self.programs.contains_key(&m.pubkey);
            }
            self.m.process_instruction(&ix, accounts)
        } else {
            self.m.process_instruction(ix, accounts)
        };
        Exec { result: r.raw_result, post: r.resulting_accounts, cu: r.compute_units_consumed }
    }
    pub fn logs(&self) -> Vec<String> {
        self.log.borrow().get_recorded_content().to_vec()
    }
}
