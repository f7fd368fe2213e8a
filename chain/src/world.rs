//! Accounts, keys, addresses and instructions. Nothing here uses the
//! repository's own crate: addresses and encodings are written from the docs.
use {
    crate::{tok, vm::*},
    serde::{Deserialize, Serialize},
    sha2::{Digest, Sha256},
    solana_account::Account,
    solana_instruction::{error::InstructionError, AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    spl_token_2022_interface::{
        extension as e,
        extension::ExtensionType as X,
        instruction as ti,
        state::{Account as TAccount, AccountState, Mint as TMint},
    },
    std::collections::BTreeMap,
};

pub fn key(tag: &str, i: u64) -> Pubkey {
    let mut h = Sha256::new();
    h.update(b"tw-key/");
    h.update(tag.as_bytes());
    h.update(i.to_le_bytes());
    Pubkey::new_from_array(h.finalize().into())
}

// ---- documented addresses ----
pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    Pubkey::find_program_address(seeds, &TW).0
}
pub fn wrapped_mint(umint: &Pubkey, wprog: &Pubkey) -> Pubkey {
    pda(&[b"mint", umint.as_ref(), wprog.as_ref()])
}
pub fn authority(wmint: &Pubkey) -> Pubkey {
    pda(&[b"authority", wmint.as_ref()])
}
pub fn backpointer(wmint: &Pubkey) -> Pubkey {
    pda(&[b"backpointer", wmint.as_ref()])
}
pub fn canonical_pointer(umint: &Pubkey) -> Pubkey {
    pda(&[b"canonical_pointer", umint.as_ref()])
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), prog.as_ref(), mint.as_ref()], &ATA).0
}
pub fn metaplex_pda(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"metadata", MPL.as_ref(), mint.as_ref()], &MPL).0
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pair {
    pub umint: Pubkey,
    pub uprog: Pubkey,
    pub wprog: Pubkey,
    pub wmint: Pubkey,
    pub wauth: Pubkey,
    pub backptr: Pubkey,
    pub escrow: Pubkey,
}
impl Pair {
    pub fn new(umint: Pubkey, uprog: Pubkey, wprog: Pubkey) -> Pair {
        let wmint = wrapped_mint(&umint, &wprog);
        let wauth = authority(&wmint);
        Pair { umint, uprog, wprog, wmint, wauth, backptr: backpointer(&wmint), escrow: ata(&wauth, &umint, &uprog) }
    }
}

// ---- documented encodings ----
pub fn w(k: Pubkey) -> AccountMeta {
    AccountMeta::new(k, false)
}
pub fn r(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, false)
}
pub fn rs(k: Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(k, true)
}
pub fn twix(data: Vec<u8>, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: TW, accounts, data }
}
pub fn ix_create_mint(p: &Pair, idempotent: bool) -> Instruction {
    twix(vec![0, idempotent as u8], vec![w(p.wmint), w(p.backptr), r(p.umint), r(SYS), r(p.wprog)])
}
pub fn amount_data(tag: u8, amount: u64) -> Vec<u8> {
    let mut d = vec![tag];
    d.extend_from_slice(&amount.to_le_bytes());
    d
}
pub fn ix_wrap(p: &Pair, recipient: Pubkey, source: Pubkey, auth: AccountMeta, extra: &[AccountMeta], amount: u64) -> Instruction {
    let mut a = vec![w(recipient), w(p.wmint), r(p.wauth), r(p.uprog), r(p.wprog), w(source), r(p.umint), w(p.escrow), auth];
    a.extend_from_slice(extra);
    twix(amount_data(1, amount), a)
}
pub fn ix_unwrap(p: &Pair, recipient: Pubkey, source: Pubkey, auth: AccountMeta, extra: &[AccountMeta], amount: u64) -> Instruction {
    let mut a = vec![w(p.escrow), w(recipient), r(p.wauth), r(p.umint), r(p.wprog), r(p.uprog), w(source), w(p.wmint), auth];
    a.extend_from_slice(extra);
    twix(amount_data(2, amount), a)
}
pub fn ix_close_stuck(p: &Pair, dest: Pubkey) -> Instruction {
    twix(vec![3], vec![w(p.escrow), w(dest), r(p.umint), r(p.wmint), r(p.wauth), r(T22)])
}
pub fn ix_sync22(p: &Pair, extra: &[Pubkey]) -> Instruction {
    let mut a = vec![w(p.wmint), r(p.wauth), r(p.umint), r(T22)];
    a.extend(extra.iter().map(|k| r(*k)));
    twix(vec![4], a)
}
pub fn ix_sync_spl(p: &Pair, extra: &[Pubkey]) -> Instruction {
    let mut a = vec![w(metaplex_pda(&p.wmint)), w(p.wauth), r(p.wmint), r(p.umint), r(MPL), r(SYS), r(RENT)];
    a.extend(extra.iter().map(|k| r(*k)));
    twix(vec![5], a)
}
pub fn ix_set_pointer(auth: AccountMeta, umint: Pubkey, target: Pubkey) -> Instruction {
    let mut d = vec![6];
    d.extend_from_slice(target.as_ref());
    twix(d, vec![auth, w(canonical_pointer(&umint)), r(umint), r(SYS)])
}

// ---- world ----
#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub a: BTreeMap<Pubkey, Account>,
}

pub fn short(k: &Pubkey) -> String {
    k.to_string()[..6].to_string()
}

impl World {
    pub fn get(&self, vm: &Vm, k: &Pubkey) -> Account {
        if let Some(p) = vm.programs.get(k) {
            return p.clone();
        }
        self.a.get(k).cloned().unwrap_or_default()
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.a.get(k).map(|a| a.data.as_slice()).unwrap_or(&[])
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.a.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn set_lamports(&mut self, k: Pubkey, l: u64) {
        self.a.entry(k).or_default().lamports = l;
    }
    pub fn fund(&mut self, k: Pubkey, l: u64) {
        let a = self.a.entry(k).or_default();
        a.lamports = a.lamports.saturating_add(l);
    }
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>) {
        self.a.insert(k, Account { lamports, data, owner, executable: false, rent_epoch: 0 });
    }
    pub fn acct(&self, k: &Pubkey) -> Option<tok::Acct> {
        tok::acct(self.data(k))
    }
    pub fn amount(&self, k: &Pubkey) -> u64 {
        self.acct(k).map(|a| a.amount).unwrap_or(0)
    }
    pub fn mint(&self, k: &Pubkey) -> Option<tok::MintState> {
        tok::mint(self.data(k))
    }
    pub fn supply(&self, k: &Pubkey) -> u64 {
        self.mint(k).map(|m| m.supply).unwrap_or(0)
    }
    /// Executes; commits on success.
    pub fn exec(&mut self, vm: &mut Vm, ix: &Instruction) -> Result<(), InstructionError> {
        if !vm.mirror || ix.program_id != TW {
            return self.exec_plain(vm, ix);
        }
        let mut other = self.clone();
        let call = by_proxy(vm, std::slice::from_ref(ix));
        let called = other.exec_plain(vm, &call);
        let logs = tail(vm);
        let bare = ix.accounts.iter().all(|m| !m.is_writable || !self.programs_own(&m.pubkey)).then(|| self.bare(ix)).flatten();
        let direct = self.exec_plain(vm, ix);
        compare_called(vm, self, &direct, &other, &called, || format!("{ix:?}; called: {logs}"));
        if let Some(mut b) = bare {
            let got = b.exec_plain(vm, ix);
            self.compare_bare(vm, &direct, &b, &got, || format!("{ix:?}"));
        }
        direct
    }
    fn programs_own(&self, k: &Pubkey) -> bool {
        self.a.get(k).is_some_and(|a| a.owner == PROXY)
    }
    /// The same with wallets for the signers that are addresses of another program (if any are).
    pub fn bare(&self, ix: &Instruction) -> Option<World> {
        let mut b = None;
        for m in ix.accounts.iter().filter(|m| m.is_signer && self.programs_own(&m.pubkey)) {
            let a = b.get_or_insert_with(|| self.clone()).a.get_mut(&m.pubkey).unwrap();
            a.owner = Pubkey::default();
            a.data = vec![];
        }
        b
    }
    pub fn compare_bare(&self, vm: &mut Vm, direct: &Result<(), InstructionError>, bare: &World, got: &Result<(), InstructionError>, show: impl Fn() -> String) {
        if vm.mirrored.differs.is_some() || is_short(direct) || is_short(got) {
            return;
        }
        vm.mirrored.wallets += 1;
        let mine: Vec<Pubkey> = self.a.iter().filter(|(k, a)| a.owner == PROXY && bare.a.get(k).is_some_and(|b| b.lamports == a.lamports)).map(|(k, _)| *k).collect();
        if direct.is_ok() != got.is_ok() {
            vm.mirrored.differs = Some(format!("{direct:?} with a program's address as a signer, {got:?} with a wallet at that address: {}", show()));
        } else if let Some(d) = self.diff(bare, &mine) {
            vm.mirrored.differs = Some(format!("a program's address as a signer against a wallet: {d}: {}", show()));
        }
    }
    fn exec_plain(&mut self, vm: &mut Vm, ix: &Instruction) -> Result<(), InstructionError> {
        let mut list: Vec<(Pubkey, Account)> = vec![];
        for m in &ix.accounts {
            if !list.iter().any(|(k, _)| *k == m.pubkey) {
                list.push((m.pubkey, self.get(vm, &m.pubkey)));
            }
        }
        let ex = vm.exec(ix, &list);
        ex.result?;
        for (k, a) in ex.post {
            if vm.programs.contains_key(&k) {
                continue;
            }
            if a.lamports == 0 {
                self.a.remove(&k);
            } else {
                self.a.insert(k, a);
            }
        }
        Ok(())
    }
    pub fn must(&mut self, vm: &mut Vm, ix: &Instruction) {
        if let Err(e) = self.exec(vm, ix) {
            // also one of another program, on what this one made: an account of a wrapped mint, say
            crate::engine::impossible(format!("setup instruction failed: {e:?}\n{ix:?}\n{}", vm.logs().join("\n")));
        }
    }
    /// All instructions or none.
    pub fn exec_all(&mut self, vm: &mut Vm, ixs: &[Instruction]) -> Result<(), InstructionError> {
        let save = self.clone();
        for ix in ixs {
            if let Err(e) = self.exec(vm, ix) {
                *self = save;
                return Err(e);
            }
        }
        Ok(())
    }
    /// First differing account, described; `ignore` lists accounts to skip.
    pub fn diff(&self, other: &World, ignore: &[Pubkey]) -> Option<String> {
        let mut keys: Vec<&Pubkey> = self.a.keys().chain(other.a.keys()).collect();
        keys.sort();
        keys.dedup();
        for k in keys {
            if ignore.contains(k) {
                continue;
            }
            let (x, y) = (self.a.get(k), other.a.get(k));
            if x != y {
                return Some(format!("account {k}: {} vs {}", descr(x), descr(y)));
            }
        }
        None
    }
}

fn tail(vm: &Vm) -> String {
    let l = vm.logs();
    l[l.len().saturating_sub(8)..].join(" | ")
}
/// The address another program signs for.
pub fn proxy_user() -> (Pubkey, u8) {
    static K: std::sync::OnceLock<(Pubkey, u8)> = std::sync::OnceLock::new();
    *K.get_or_init(|| Pubkey::find_program_address(&[b"tw-proxy-user"], &PROXY))
}
pub fn proxy_authority() -> (Pubkey, u8) {
    static K: std::sync::OnceLock<(Pubkey, u8)> = std::sync::OnceLock::new();
    *K.get_or_init(|| Pubkey::find_program_address(&[b"tw-proxy-authority"], &PROXY))
}
/// The same instructions, carried out by another program in one go.
pub fn by_proxy(vm: &Vm, ixs: &[Instruction]) -> Instruction {
    let ((me, b1), (authority, b2)) = (proxy_user(), proxy_authority());
    let mut metas: Vec<AccountMeta> = vec![];
    let mut data = vec![b1, b2, ixs.len() as u8];
    let mut at = |k: Pubkey, s: bool, w: bool| -> u8 {
        let i = metas.iter().position(|m| m.pubkey == k).unwrap_or_else(|| {
            metas.push(r(k));
            metas.len() - 1
        });
        metas[i].is_signer |= s && k != me && k != authority;
        metas[i].is_writable |= w;
        i as u8
    };
    for ix in ixs {
        data.push(at(ix.program_id, false, false));
        data.push(ix.accounts.len() as u8);
        for m in &ix.accounts {
            let writable = m.is_writable && !vm.programs.contains_key(&m.pubkey);
            data.push(at(m.pubkey, m.is_signer, writable));
            data.push(m.is_signer as u8 | (writable as u8) << 1);
        }
        data.extend((ix.data.len() as u16).to_le_bytes());
        data.extend(&ix.data);
    }
    Instruction { program_id: PROXY, accounts: metas, data }
}
/// A limit of the runtime was reached.
fn is_short(r: &Result<(), InstructionError>) -> bool {
    matches!(r, Err(InstructionError::ComputationalBudgetExceeded) | Err(InstructionError::MaxAccountsExceeded) | Err(InstructionError::CallDepth))
}
pub fn compare_called(vm: &mut Vm, a: &World, direct: &Result<(), InstructionError>, b: &World, called: &Result<(), InstructionError>, show: impl Fn() -> String) {
    // the caller pays for its own work out of the same budget
    if is_short(called) || is_short(direct) {
        vm.mirrored.skipped += 1;
        return;
    }
    match direct {
        Ok(()) => vm.mirrored.accepted += 1,
        Err(_) => vm.mirrored.refused += 1,
    }
    if vm.mirrored.differs.is_some() {
        return;
    }
    if direct != called {
        vm.mirrored.differs = Some(format!("{direct:?} when it is sent, {called:?} when another program calls it: {}", show()));
    } else if let Some(d) = a.diff(b, &[]) {
        vm.mirrored.differs = Some(format!("sent against called: {d}: {}", show()));
    }
}

pub fn descr(a: Option<&Account>) -> String {
    let Some(a) = a else { return "absent".into() };
    let mut s = format!("lamports {} owner {} len {}", a.lamports, short(&a.owner), a.data.len());
    if a.owner == SPL || a.owner == T22 {
        if let Some(t) = tok::acct(&a.data) {
            s += &format!(" token amount {} state {} delegated {} delegate {:?}", t.amount, t.state, t.delegated, t.delegate.map(|k| short(&k)));
            s += &format!(" tlv {:?}", tok::tlv(&a.data).iter().map(|(t, v)| (*t, v.len(), h8(v))).collect::<Vec<_>>());
        } else if let Some(m) = tok::mint(&a.data) {
            s += &format!(" mint supply {} decimals {} auth {:?} freeze {:?}", m.supply, m.decimals, m.authority.map(|k| short(&k)), m.freeze.map(|k| short(&k)));
            s += &format!(" tlv {:?}", tok::tlv(&a.data).iter().map(|(t, v)| (*t, v.len(), h8(v))).collect::<Vec<_>>());
        } else {
            s += &format!(" data {}", h8(&a.data));
        }
    } else {
        s += &format!(" data {}", h8(&a.data));
    }
    s
}
fn h8(b: &[u8]) -> String {
    Sha256::digest(b)[..4].iter().map(|x| format!("{x:02x}")).collect()
}

// ---- mints ----
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fee {
    pub bps: u16,
    pub max: u64,
}

/// Extension bits of an unwrapped Token-2022 mint.
pub mod xb {
    pub const FEE: u32 = 1 << 0;
    pub const CLOSE: u32 = 1 << 1;
    pub const CT: u32 = 1 << 2;
    pub const DEFAULT_INIT: u32 = 1 << 3;
    pub const NON_TRANSFERABLE: u32 = 1 << 4;
    pub const INTEREST: u32 = 1 << 5;
    pub const PERM_DELEGATE: u32 = 1 << 6;
    pub const HOOK: u32 = 1 << 7;
    pub const META_POINTER: u32 = 1 << 8;
    pub const CT_FEE: u32 = 1 << 9;
    pub const GROUP_POINTER: u32 = 1 << 10;
    pub const MEMBER_POINTER: u32 = 1 << 11;
    pub const SCALED_UI: u32 = 1 << 12;
    pub const PAUSABLE: u32 = 1 << 13;
    pub const DEFAULT_FROZEN: u32 = 1 << 14;
    pub const HOOK_NONE: u32 = 1 << 15; // hook extension without a program
    pub const ALL: [u32; 16] = [
        FEE, CLOSE, CT, DEFAULT_INIT, NON_TRANSFERABLE, INTEREST, PERM_DELEGATE, HOOK, META_POINTER, CT_FEE,
        GROUP_POINTER, MEMBER_POINTER, SCALED_UI, PAUSABLE, DEFAULT_FROZEN, HOOK_NONE,
    ];
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MintCfg {
    pub t22: bool,
    pub native: bool,
    pub decimals: u8,
    pub freeze: bool,
    pub ext: u32,
    /// at epoch `.0` the fee is set to `.1` (first entry: at initialisation)
    pub fees: Vec<(u8, Fee)>,
}
impl MintCfg {
    /// Makes the extension set one Token-2022 accepts.
    pub fn norm(&self) -> MintCfg {
        let mut c = self.clone();
        if !c.t22 {
            c.ext = 0;
            c.fees.clear();
        }
        if c.native {
            c.ext = 0;
            c.freeze = false;
            c.decimals = 9;
            c.fees.clear();
        }
        use xb::*;
        if c.ext & CT_FEE != 0 {
            c.ext |= CT | FEE;
        }
        if c.ext & FEE != 0 && c.ext & CT != 0 {
            c.ext |= CT_FEE;
        }
        if c.ext & INTEREST != 0 {
            c.ext &= !SCALED_UI;
        }
        if c.ext & DEFAULT_FROZEN != 0 {
            c.ext &= !DEFAULT_INIT;
            c.freeze = true;
        }
        if c.ext & DEFAULT_INIT != 0 {
            c.freeze = true; // Token-2022 asks for a freeze authority
        }
        if c.ext & HOOK != 0 {
            c.ext &= !HOOK_NONE;
        }
        if c.ext & NON_TRANSFERABLE != 0 {
            c.ext &= !(FEE | CT_FEE | CT | HOOK);
        }
        if c.ext & FEE == 0 {
            c.fees.clear();
        } else if c.fees.is_empty() {
            c.fees.push((0, Fee { bps: 100, max: 50_000 }));
        }
        c
    }
    pub fn prog(&self) -> Pubkey {
        if self.t22 {
            T22
        } else {
            SPL
        }
    }
    pub fn types(&self) -> Vec<X> {
        use xb::*;
        let t = [
            (FEE, X::TransferFeeConfig),
            (CLOSE, X::MintCloseAuthority),
            (CT, X::ConfidentialTransferMint),
            (DEFAULT_INIT | DEFAULT_FROZEN, X::DefaultAccountState),
            (NON_TRANSFERABLE, X::NonTransferable),
            (INTEREST, X::InterestBearingConfig),
            (PERM_DELEGATE, X::PermanentDelegate),
            (HOOK | HOOK_NONE, X::TransferHook),
            (META_POINTER, X::MetadataPointer),
            (CT_FEE, X::ConfidentialTransferFeeConfig),
            (GROUP_POINTER, X::GroupPointer),
            (MEMBER_POINTER, X::GroupMemberPointer),
            (SCALED_UI, X::ScaledUiAmount),
            (PAUSABLE, X::Pausable),
        ];
        t.iter().filter(|(b, _)| self.ext & b != 0).map(|(_, x)| *x).collect()
    }
}

/// Of another program, too: a treasury or governance program may hold it.
pub fn mint_authority_key() -> Pubkey {
    proxy_authority().0
}
pub fn freeze_key() -> Pubkey {
    key("freeze-authority", 0)
}
pub fn admin_key() -> Pubkey {
    key("admin", 0)
}
pub fn perm_delegate_key() -> Pubkey {
    key("perm-delegate", 0)
}

/// Initialise instructions are built as Token-2022 ones and retargeted for SPL Token.
pub fn retarget(mut ix: Instruction, prog: Pubkey) -> Instruction {
    ix.program_id = prog;
    ix
}

/// Creates the mint through the token program's own instructions (native mints
/// are placed as they exist on chain).
pub fn create_mint(wd: &mut World, vm: &mut Vm, mint: Pubkey, cfg: &MintCfg, meta_addr: Option<Pubkey>) {
    let prog = cfg.prog();
    if cfg.native {
        let mut d = vec![0u8; 82];
        d[44] = 9;
        d[45] = 1;
        wd.put(mint, prog, vm.rent(82) + 1_000_000_000, d);
        return;
    }
    let space = if cfg.t22 { X::try_calculate_account_len::<TMint>(&cfg.types()).unwrap() } else { 82 };
    wd.put(mint, prog, vm.rent(space), vec![0; space]);
    use xb::*;
    let mut ixs = vec![];
    if cfg.ext & FEE != 0 {
        let f = cfg.fees[0].1;
        ixs.push(e::transfer_fee::instruction::initialize_transfer_fee_config(&prog, &mint, Some(&admin_key()), Some(&admin_key()), f.bps.min(10_000), f.max).unwrap());
    }
    if cfg.ext & CLOSE != 0 {
        ixs.push(ti::initialize_mint_close_authority(&prog, &mint, Some(&admin_key())).unwrap());
    }
    if cfg.ext & CT != 0 {
        ixs.push(e::confidential_transfer::instruction::initialize_mint(&prog, &mint, Some(admin_key()), true, None).unwrap());
    }
    if cfg.ext & (DEFAULT_INIT | DEFAULT_FROZEN) != 0 {
        let s = if cfg.ext & DEFAULT_FROZEN != 0 { AccountState::Frozen } else { AccountState::Initialized };
        ixs.push(e::default_account_state::instruction::initialize_default_account_state(&prog, &mint, &s).unwrap());
    }
    if cfg.ext & NON_TRANSFERABLE != 0 {
        ixs.push(ti::initialize_non_transferable_mint(&prog, &mint).unwrap());
    }
    if cfg.ext & INTEREST != 0 {
        ixs.push(e::interest_bearing_mint::instruction::initialize(&prog, &mint, Some(admin_key()), 500).unwrap());
    }
    if cfg.ext & PERM_DELEGATE != 0 {
        ixs.push(ti::initialize_permanent_delegate(&prog, &mint, &perm_delegate_key()).unwrap());
    }
    if cfg.ext & (HOOK | HOOK_NONE) != 0 {
        let p = if cfg.ext & HOOK != 0 { Some(MOCK_HOOK) } else { None };
        ixs.push(e::transfer_hook::instruction::initialize(&prog, &mint, Some(admin_key()), p).unwrap());
    }
    if cfg.ext & META_POINTER != 0 {
        ixs.push(e::metadata_pointer::instruction::initialize(&prog, &mint, Some(admin_key()), meta_addr.or(Some(mint)).filter(|k| *k != SYS)).unwrap());
    }
    if cfg.ext & CT_FEE != 0 {
        ixs.push(
            e::confidential_transfer_fee::instruction::initialize_confidential_transfer_fee_config(
                &prog,
                &mint,
                Some(admin_key()),
                &ELGAMAL.into(),
            )
            .unwrap(),
        );
    }
    if cfg.ext & GROUP_POINTER != 0 {
        ixs.push(e::group_pointer::instruction::initialize(&prog, &mint, Some(admin_key()), Some(mint)).unwrap());
    }
    if cfg.ext & MEMBER_POINTER != 0 {
        ixs.push(e::group_member_pointer::instruction::initialize(&prog, &mint, Some(admin_key()), Some(mint)).unwrap());
    }
    if cfg.ext & SCALED_UI != 0 {
        ixs.push(e::scaled_ui_amount::instruction::initialize(&prog, &mint, Some(admin_key()), 2.5).unwrap());
    }
    if cfg.ext & PAUSABLE != 0 {
        ixs.push(e::pausable::instruction::initialize(&prog, &mint, &admin_key()).unwrap());
    }
    let fk = freeze_key();
    ixs.push(retarget(ti::initialize_mint2(&T22, &mint, &mint_authority_key(), cfg.freeze.then_some(&fk), cfg.decimals).unwrap(), prog));
    for ix in ixs {
        wd.must(vm, &ix);
    }
}
/// Any valid compressed curve point will do.
const ELGAMAL_BYTES: [u8; 32] = [
    0xca, 0x89, 0xe4, 0xaa, 0x4a, 0xa8, 0x5c, 0xdb, 0xcc, 0x6c, 0xdf, 0xed, 0x53, 0xa7, 0xe3, 0x1c, 0x58, 0x5f, 0x66, 0xe3, 0x4f,
    0xa6, 0xf3, 0x0b, 0xe7, 0xc7, 0x9b, 0x68, 0xfd, 0x9b, 0x04, 0x6e,
];
const ELGAMAL: ElGamal = ElGamal(ELGAMAL_BYTES);
struct ElGamal([u8; 32]);
impl From<ElGamal> for solana_zk_sdk_pod::encryption::elgamal::PodElGamalPubkey {
    fn from(x: ElGamal) -> Self {
        Self(x.0)
    }
}

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct AcctOpts {
    pub immutable: bool,
    pub memo: bool,
    pub guard: bool,
}

pub fn account_len(cfg_types: &[X], o: AcctOpts) -> usize {
    let mut t = X::get_required_init_account_extensions(cfg_types);
    if o.immutable {
        t.push(X::ImmutableOwner);
    }
    if o.memo {
        t.push(X::MemoTransfer);
    }
    if o.guard {
        t.push(X::CpiGuard);
    }
    X::try_calculate_account_len::<TAccount>(&t).unwrap()
}

/// An ordinary token account, created through the token program.
pub fn create_account(wd: &mut World, vm: &mut Vm, k: Pubkey, mint: Pubkey, prog: Pubkey, types: &[X], owner: Pubkey, owner_signers: &[Pubkey], o: AcctOpts) {
    let o = if prog == SPL { AcctOpts::default() } else { o };
    let len = if prog == SPL { 165 } else { account_len(types, o) };
    wd.put(k, prog, vm.rent(len), vec![0; len]);
    if o.immutable {
        let ix = ti::initialize_immutable_owner(&prog, &k).unwrap();
        wd.must(vm, &ix);
    }
    let ix = retarget(ti::initialize_account3(&T22, &k, &mint, &owner).unwrap(), prog);
    wd.must(vm, &ix);
    let s: Vec<&Pubkey> = owner_signers.iter().collect();
    if o.memo {
        let ix = e::memo_transfer::instruction::enable_required_transfer_memos(&prog, &k, &owner, &s).unwrap();
        wd.must(vm, &ix);
    }
    if o.guard {
        let ix = e::cpi_guard::instruction::enable_cpi_guard(&prog, &k, &owner, &s).unwrap();
        wd.must(vm, &ix);
    }
}

pub fn create_ata(wd: &mut World, vm: &mut Vm, owner: Pubkey, mint: Pubkey, prog: Pubkey) -> Result<(), InstructionError> {
    let payer = key("payer", 0);
    wd.set_lamports(payer, 1_000_000_000_000);
    let ix = spl_associated_token_account_interface::instruction::create_associated_token_account(&payer, &owner, &mint, &prog);
    wd.exec(vm, &ix)
}

pub fn create_multisig(wd: &mut World, vm: &mut Vm, k: Pubkey, prog: Pubkey, members: &[Pubkey], m: u8) {
    wd.put(k, prog, vm.rent(355), vec![0; 355]);
    let s: Vec<&Pubkey> = members.iter().collect();
    let ix = retarget(ti::initialize_multisig2(&T22, &k, &s, m).unwrap(), prog);
    wd.must(vm, &ix);
}

pub fn ix_mint_to(prog: Pubkey, mint: Pubkey, to: Pubkey, auth: Pubkey, amount: u64) -> Instruction {
    retarget(ti::mint_to(&T22, &mint, &to, &auth, &[], amount).unwrap(), prog)
}
pub fn ix_burn(prog: Pubkey, mint: Pubkey, from: Pubkey, auth: AccountMeta, extra: &[AccountMeta], amount: u64) -> Instruction {
    let mut ix = retarget(ti::burn(&T22, &from, &mint, &auth.pubkey, &[], amount).unwrap(), prog);
    ix.accounts[2] = auth;
    ix.accounts.extend_from_slice(extra);
    ix
}
pub fn ix_transfer(prog: Pubkey, from: Pubkey, mint: Pubkey, to: Pubkey, auth: AccountMeta, extra: &[AccountMeta], amount: u64, decimals: u8) -> Instruction {
    let mut ix = retarget(ti::transfer_checked(&T22, &from, &mint, &to, &auth.pubkey, &[], amount, decimals).unwrap(), prog);
    ix.accounts[3] = auth;
    ix.accounts.extend_from_slice(extra);
    ix
}

/// Funds the PDAs, creates the wrapped mint and the escrow.
pub fn create_pair(wd: &mut World, vm: &mut Vm, p: &Pair) {
    let space = if p.wprog == T22 { 400 } else { 82 };
    wd.fund(p.wmint, vm.rent(space));
    wd.fund(p.backptr, vm.rent(32));
    let ix = ix_create_mint(p, false);
    wd.must(vm, &ix);
    if let Err(e) = create_ata(wd, vm, p.wauth, p.umint, p.uprog) {
        crate::engine::abort(format!("escrow: {e:?}"));
    }
}

// ---- more token-program instructions ----
pub fn auth_metas(ix: &mut Instruction, pos: usize, auth: AccountMeta, extra: &[AccountMeta]) {
    ix.accounts[pos] = auth;
    ix.accounts.extend_from_slice(extra);
}
pub fn ix_approve(prog: Pubkey, acct: Pubkey, delegate: Pubkey, auth: AccountMeta, extra: &[AccountMeta], amount: u64) -> Instruction {
    let mut ix = retarget(ti::approve(&T22, &acct, &delegate, &auth.pubkey, &[], amount).unwrap(), prog);
    auth_metas(&mut ix, 2, auth, extra);
    ix
}
pub fn ix_revoke(prog: Pubkey, acct: Pubkey, auth: AccountMeta, extra: &[AccountMeta]) -> Instruction {
    let mut ix = retarget(ti::revoke(&T22, &acct, &auth.pubkey, &[]).unwrap(), prog);
    auth_metas(&mut ix, 1, auth, extra);
    ix
}
pub fn ix_freeze(prog: Pubkey, acct: Pubkey, mint: Pubkey, on: bool) -> Instruction {
    let f = freeze_key();
    retarget(if on { ti::freeze_account(&T22, &acct, &mint, &f, &[]).unwrap() } else { ti::thaw_account(&T22, &acct, &mint, &f, &[]).unwrap() }, prog)
}
pub fn ix_sync_native(prog: Pubkey, acct: Pubkey) -> Instruction {
    retarget(ti::sync_native(&T22, &acct).unwrap(), prog)
}
pub fn ix_set_authority(prog: Pubkey, what: Pubkey, new: Option<Pubkey>, kind: ti::AuthorityType, old: AccountMeta, extra: &[AccountMeta]) -> Instruction {
    let mut ix = retarget(ti::set_authority(&T22, &what, new.as_ref(), kind, &old.pubkey, &[]).unwrap(), prog);
    auth_metas(&mut ix, 1, old, extra);
    ix
}
pub fn ix_pause(mint: Pubkey, on: bool) -> Instruction {
    if on {
        e::pausable::instruction::pause(&T22, &mint, &admin_key(), &[]).unwrap()
    } else {
        e::pausable::instruction::resume(&T22, &mint, &admin_key(), &[]).unwrap()
    }
}
pub fn ix_set_fee(mint: Pubkey, f: Fee) -> Instruction {
    e::transfer_fee::instruction::set_transfer_fee(&T22, &mint, &admin_key(), &[], f.bps.min(10_000), f.max).unwrap()
}
pub fn ix_harvest(mint: Pubkey, accts: &[Pubkey]) -> Instruction {
    let v: Vec<&Pubkey> = accts.iter().collect();
    e::transfer_fee::instruction::harvest_withheld_tokens_to_mint(&T22, &mint, &v).unwrap()
}
pub fn ix_withdraw_withheld(mint: Pubkey, dest: Pubkey, accts: &[Pubkey]) -> Instruction {
    let v: Vec<&Pubkey> = accts.iter().collect();
    e::transfer_fee::instruction::withdraw_withheld_tokens_from_accounts(&T22, &mint, &dest, &admin_key(), &[], &v).unwrap()
}
pub fn ix_guard(acct: Pubkey, auth: AccountMeta, extra: &[AccountMeta], on: bool) -> Instruction {
    let mut ix = if on {
        e::cpi_guard::instruction::enable_cpi_guard(&T22, &acct, &auth.pubkey, &[]).unwrap()
    } else {
        e::cpi_guard::instruction::disable_cpi_guard(&T22, &acct, &auth.pubkey, &[]).unwrap()
    };
    auth_metas(&mut ix, 1, auth, extra);
    ix
}
pub fn ix_memo(acct: Pubkey, auth: AccountMeta, extra: &[AccountMeta], on: bool) -> Instruction {
    let mut ix = if on {
        e::memo_transfer::instruction::enable_required_transfer_memos(&T22, &acct, &auth.pubkey, &[]).unwrap()
    } else {
        e::memo_transfer::instruction::disable_required_transfer_memos(&T22, &acct, &auth.pubkey, &[]).unwrap()
    };
    auth_metas(&mut ix, 1, auth, extra);
    ix
}

// ---- transfer hook ----
pub fn hook_validation(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"extra-account-metas", mint.as_ref()], &MOCK_HOOK).0
}
pub fn hook_record(mint: &Pubkey) -> Pubkey {
    key("hook-record", u64::from_le_bytes(mint.as_ref()[..8].try_into().unwrap()))
}
/// The accounts a caller appends for the hook: record, extras, program, validation.
pub fn hook_metas(mint: &Pubkey, extras: &[Pubkey]) -> Vec<AccountMeta> {
    let mut v = vec![w(hook_record(mint))];
    v.extend(extras.iter().map(|k| r(*k)));
    v.push(r(MOCK_HOOK));
    v.push(r(hook_validation(mint)));
    v
}
pub fn setup_hook(wd: &mut World, vm: &Vm, mint: &Pubkey, extras: &[Pubkey]) {
    use {spl_tlv_account_resolution::{account::ExtraAccountMeta, state::ExtraAccountMetaList}, spl_transfer_hook_interface::instruction::ExecuteInstruction};
    let mut list = vec![ExtraAccountMeta::new_with_pubkey(&hook_record(mint), false, true).unwrap()];
    for k in extras {
        list.push(ExtraAccountMeta::new_with_pubkey(k, false, false).unwrap());
    }
    let mut d = vec![0; ExtraAccountMetaList::size_of(list.len()).unwrap()];
    ExtraAccountMetaList::init::<ExecuteInstruction>(&mut d, &list).unwrap();
    wd.put(hook_validation(mint), MOCK_HOOK, vm.rent(d.len()), d);
    wd.put(hook_record(mint), MOCK_HOOK, vm.rent(64), vec![0; 64]);
    for k in extras {
        if !wd.a.contains_key(k) {
            wd.fund(*k, 1_000_000);
        }
    }
}

// ---- metadata ----
pub fn ix_meta_init(mint: Pubkey, auth: Pubkey, mint_auth: Pubkey, name: &str, symbol: &str, uri: &str) -> Instruction {
    spl_token_metadata_interface::instruction::initialize(&T22, &mint, &auth, &mint, &mint_auth, name.into(), symbol.into(), uri.into())
}
pub fn ix_metaplex_create(mint: Pubkey, mint_auth: Pubkey, payer: Pubkey, update_auth: Pubkey, data: mpl_token_metadata::types::DataV2) -> Instruction {
    use mpl_token_metadata::instructions::*;
    CreateMetadataAccountV3 {
        metadata: metaplex_pda(&mint),
        mint,
        mint_authority: mint_auth,
        payer,
        update_authority: (update_auth, true),
        system_program: SYS,
        rent: Some(RENT),
    }
    .instruction(CreateMetadataAccountV3InstructionArgs { data, is_mutable: true, collection_details: None })
}
