//! A populated world of mints, pairs and holders, and an interpreter of
//! operations on it. Every wrap and unwrap is compared with the token programs
//! executed directly.
use {
    crate::{engine::*, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::{error::InstructionError, AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    spl_token_2022_interface::{extension::ExtensionType as X, instruction::AuthorityType},
    std::collections::BTreeMap,
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amt {
    Zero,
    One,
    Bal,
    BalMinus(u8),
    BalPlus(u8),
    Half,
    Frac(u8),
    Pow(u8),
    PowMinus(u8),
    Max,
    Raw(u64),
}
impl Amt {
    pub fn of(&self, bal: u64) -> u64 {
        match *self {
            Amt::Zero => 0,
            Amt::One => 1,
            Amt::Bal => bal,
            Amt::BalMinus(n) => bal.saturating_sub(n as u64),
            Amt::BalPlus(n) => bal.saturating_add(n as u64),
            Amt::Half => bal / 2,
            Amt::Frac(n) => (bal as u128 * n as u128 / 255) as u64,
            Amt::Pow(n) => 1u64 << (n % 64),
            Amt::PowMinus(n) => (1u64 << (n % 64)) - 1,
            Amt::Max => u64::MAX,
            Amt::Raw(n) => n,
        }
    }
}
pub fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        14 => any::<u8>().prop_map(Amt::Frac),
        4 => Just(Amt::Bal),
        3 => Just(Amt::Half),
        2 => Just(Amt::One),
        1 => Just(Amt::Zero),
        2 => (1u8..4).prop_map(Amt::BalMinus),
        1 => (1u8..4).prop_map(Amt::BalPlus),
        2 => (0u8..64).prop_map(Amt::Pow),
        1 => (0u8..64).prop_map(Amt::PowMinus),
        1 => Just(Amt::Max),
        2 => (0u64..20_000).prop_map(Amt::Raw),
        1 => any::<u64>().prop_map(Amt::Raw),
    ]
    .boxed()
}
/// Initial balances: mostly large.
pub fn init_amt() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 1_000u64..10_000_000,
        1 => 0u64..100,
        2 => any::<u64>().prop_map(|x| x >> 2),
        1 => Just(u64::MAX),
        1 => (0u8..64).prop_map(|n| 1u64 << n),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MintSpec {
    pub cfg: MintCfg,
    /// bit 0: pair with SPL Token, bit 1: pair with Token-2022
    pub wprogs: u8,
    /// wrapped-program choice per nesting level below the first
    pub nest: Vec<bool>,
    pub init: [u64; 4],
    pub thaw: bool,
    pub meta: bool,
    pub hook_extras: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Auth {
    Owner,
    Delegate,
    Unsigned,
    Stranger(u8),
    /// multisig principal: these positions sign (n and above: outsiders);
    /// any other principal: it signs and these accounts are appended
    Signers(Vec<u8>),
    /// like Signers but through the delegate
    DelegateSigners(Vec<u8>),
    /// multisig principal: the second list is listed but does not sign
    Listed(Vec<u8>, Vec<u8>),
}
pub fn auth() -> BoxedStrategy<Auth> {
    prop_oneof![
        8 => Just(Auth::Owner),
        3 => Just(Auth::Delegate),
        1 => Just(Auth::Unsigned),
        1 => (0u8..5).prop_map(Auth::Stranger),
        4 => vec(0u8..13, 0..12).prop_map(Auth::Signers),
        1 => vec(0u8..13, 0..12).prop_map(Auth::DelegateSigners),
        1 => (vec(0u8..13, 0..6), vec(0u8..13, 1..4)).prop_map(|(a, b)| Auth::Listed(a, b)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rcpt {
    User(u8),
    Escrow(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Wrap { pair: u8, u: u8, to: u8, amt: Amt, auth: Auth },
    Unwrap { pair: u8, u: u8, to: Rcpt, amt: Amt, auth: Auth },
    MintMore { tok: u8, u: u8, amt: Amt },
    Transfer { tok: u8, from: u8, to: u8, amt: Amt },
    Burn { tok: u8, u: u8, amt: Amt },
    Approve { tok: u8, u: u8, to: u8, amt: Amt },
    Revoke { tok: u8, u: u8 },
    Freeze { tok: u8, u: u8, on: bool },
    FreezeEscrow { pair: u8, on: bool },
    Pause { tok: u8, on: bool },
    SetFee { tok: u8, fee: Fee },
    Warp { n: u8 },
    Donate { pair: u8, u: u8, amt: Amt },
    Harvest { tok: u8, withdraw: bool },
    Guard { tok: u8, u: u8, on: bool },
    Memo { tok: u8, u: u8, on: bool },
    HookRefuse { tok: u8, on: bool },
    DropHookAccount { pair: u8, u: u8, unwrap: bool, which: u8 },
    Dust { pair: u8, which: u8, amount: u16 },
    CreateAgain { pair: u8, idempotent: bool },
    CloseStuck { pair: u8 },
    Sync { pair: u8 },
    SetPointer { tok: u8, who: u8, target: u8 },
    RevokeMintAuth { tok: u8 },
    /// a wrap or unwrap between any two accounts of the world under any authority;
    /// only addresses with a private key can sign
    Free { pair: u8, unwrap: bool, src: u8, dst: u8, auth: u8, signed: bool, tail: u8, amt: Amt },
    Mix { a: u8, b: u8, mask: u16, unwrap: bool, u: u8, amt: Amt },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LabSpec {
    pub mints: Vec<MintSpec>,
    pub ms: (u8, u8),
    /// account flags by token*4+user: bit 0 guard, bit 1 memo, bit 2 immutable
    pub acct_flags: Vec<u8>,
    pub warp: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LabCase {
    pub spec: LabSpec,
    pub ops: Vec<Op>,
    /// how the final redemption is split
    pub liq: Vec<u8>,
}

pub struct Tok {
    pub mint: Pubkey,
    pub prog: Pubkey,
    pub types: Vec<X>,
    pub cfg: Option<MintCfg>,
    pub decimals: u8,
    pub hook_extras: Vec<Pubkey>,
}
pub struct LPair {
    pub p: Pair,
    pub u: usize,
    pub w: usize,
    pub level: usize,
}
pub struct Lab {
    pub w: World,
    pub toks: Vec<Tok>,
    pub pairs: Vec<LPair>,
    pub m: usize,
    pub members: Vec<Pubkey>,
    pub slack: Vec<u64>,
}

pub fn user(i: usize) -> Pubkey {
    if i == 1 {
        return proxy_user().0; // not everybody is a key pair
    }
    key("user", i as u64)
}
/// Signers, then the accounts for the hook; those among them that are there already are
/// named a second time or not.
fn with_tail(signers: &[AccountMeta], tail: &[AccountMeta], amount: u64) -> Vec<AccountMeta> {
    let mut extra = signers.to_vec();
    for m in tail {
        if amount % 3 == 0 || m.is_writable || !signers.iter().any(|s| s.pubkey == m.pubkey) {
            extra.push(m.clone());
        }
    }
    extra
}
/// Another user than the holder.
pub fn stranger_user(i: u8, u: usize) -> Pubkey {
    user((u + 1 + (i % 2) as usize) % 3)
}
pub fn outsider(i: u8) -> Pubkey {
    key("outsider", i as u64)
}
pub fn multisig_key(prog: &Pubkey) -> Pubkey {
    key("multisig", (*prog == T22) as u64)
}
pub fn holder_acct(t: usize, u: usize) -> Pubkey {
    key("account", (t * 8 + u) as u64)
}

/// How a wrap or unwrap compares with the token programs' own verdict.
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    BothOk,
    BothRefuse,
    Refused(String),
    Unjustified(String),
    Differs(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub ok: bool,
    pub amount: u64,
    pub err: Option<InstructionError>,
}

/// An account of token `t` that belongs to the authority of pair `pi` and is not its escrow.
pub fn pda_held(t: usize, pi: usize) -> Pubkey {
    key("pda-held", (t * 64 + pi) as u64)
}
/// Token-2022 refuses owner-signed debits of CPI-guarded accounts in any CPI.
pub fn guard_blocks(wd: &World, acct: &Pubkey, signer: &Pubkey) -> bool {
    let d = wd.data(acct);
    let Some(a) = tok::acct(d) else { return false };
    tok::cpi_guard(d) && a.owner == *signer
}

impl Lab {
    pub fn new(vm: &mut Vm, s: &LabSpec) -> Lab {
        let n = (s.ms.1 as usize).clamp(1, 11);
        let m = (s.ms.0 as usize).clamp(1, n);
        let members: Vec<Pubkey> = (0..n).map(|i| key("member", i as u64)).collect();
        let mut l = Lab { w: World::default(), toks: vec![], pairs: vec![], m, members: members.clone(), slack: vec![] };
        l.w.fund(key("payer", 0), 1_000_000_000_000);
        l.w.put(mint_authority_key(), PROXY, 1_000_000_000, vec![1; 40]);
        l.w.put(user(1), PROXY, 1_000_000_000, vec![1; 24]);
        for prog in [SPL, T22] {
            create_multisig(&mut l.w, vm, multisig_key(&prog), prog, &members, m as u8);
        }
        let mut natives = 0;
        for (i, ms) in s.mints.iter().enumerate() {
            let mut cfg = ms.cfg.norm();
            let mint = if cfg.native {
                let k = if cfg.t22 { NATIVE22 } else { NATIVE };
                if natives & (1 << cfg.t22 as u8) != 0 {
                    cfg.native = false;
                    key("mint", i as u64)
                } else {
                    natives |= 1 << cfg.t22 as u8;
                    k
                }
            } else {
                key("mint", i as u64)
            };
            create_mint(&mut l.w, vm, mint, &cfg, None);
            let extras: Vec<Pubkey> = (0..ms.hook_extras.min(8))
                .map(|j| match j {
                    // a hook may ask for accounts that play another role as well
                    1 => members[i % n],
                    3 => user(0),
                    _ => key("hook-extra", (i * 32 + j as usize) as u64),
                })
                .collect();
            if cfg.ext & xb::HOOK != 0 {
                setup_hook(&mut l.w, vm, &mint, &extras);
            }
            if ms.meta && !cfg.native {
                if cfg.ext & xb::META_POINTER != 0 {
                    l.w.fund(mint, 10_000_000);
                    let ix = ix_meta_init(mint, admin_key(), mint_authority_key(), "Name", "SYM", "https://x.y/z");
                    l.w.must(vm, &ix);
                } else {
                    let data = mpl_token_metadata::types::DataV2 {
                        name: "Metaplex name".into(),
                        symbol: "MPX".into(),
                        uri: "https://a.b/c".into(),
                        seller_fee_basis_points: 250,
                        creators: None,
                        collection: None,
                        uses: None,
                    };
                    let ix = ix_metaplex_create(mint, mint_authority_key(), key("payer", 0), mint_authority_key(), data);
                    // extensions Metaplex does not know are its business
                    let _ = l.w.exec(vm, &ix);
                }
            }
            let t = l.toks.len();
            l.toks.push(Tok { mint, prog: cfg.prog(), types: cfg.types(), decimals: cfg.decimals, cfg: Some(cfg.clone()), hook_extras: extras });
            l.make_accounts(vm, s, t);
            // fee schedule
            let mut e0 = 0;
            for (e, f) in cfg.fees.iter().skip(1) {
                e0 += *e as u64;
                let cur = vm.epoch();
                vm.set_epoch(e0.max(cur));
                let ix = ix_set_fee(mint, *f);
                l.w.must(vm, &ix);
            }
            let mut left = if cfg.native { 1u64 << 60 } else { u64::MAX };
            for u in 0..4 {
                let a = ms.init[u].min(left);
                left -= a;
                if a == 0 {
                    continue;
                }
                if cfg.native {
                    let a = a.min(1 << 58);
                    l.w.fund(holder_acct(t, u), a);
                    let ix = ix_sync_native(cfg.prog(), holder_acct(t, u));
                    l.w.must(vm, &ix);
                    continue;
                }
                // non-transferable mints only mint to accounts with immutable owners; some spots stay empty
                let ix = ix_mint_to(cfg.prog(), mint, holder_acct(t, u), mint_authority_key(), a);
                let _ = l.w.exec(vm, &ix);
            }
            for (bit, wprog) in [(1u8, SPL), (2, T22)] {
                if ms.wprogs & bit == 0 {
                    continue;
                }
                let mut ut = t;
                let mut level = 0;
                let mut wp = wprog;
                loop {
                    ut = l.make_pair(vm, s, ut, wp, level);
                    if level == 0 && ms.thaw && cfg.ext & xb::DEFAULT_FROZEN != 0 {
                        let e = l.pairs.last().unwrap().p.escrow;
                        let ix = ix_freeze(cfg.prog(), e, mint, false);
                        l.w.must(vm, &ix);
                    }
                    let Some(next) = ms.nest.get(level) else { break };
                    if bit == 2 && ms.wprogs & 1 != 0 {
                        break; // nest below one of the two only
                    }
                    wp = if *next { T22 } else { SPL };
                    level += 1;
                }
            }
        }
        vm.set_epoch(vm.epoch() + s.warp as u64);
        l.slack = vec![0; l.pairs.len()];
        l
    }

    fn make_accounts(&mut self, vm: &mut Vm, s: &LabSpec, t: usize) {
        let (mint, prog) = (self.toks[t].mint, self.toks[t].prog);
        let types = self.toks[t].types.clone();
        let frozen = self.toks[t].cfg.as_ref().map(|c| c.ext & xb::DEFAULT_FROZEN != 0).unwrap_or(false);
        for u in 0..4 {
            let f = s.acct_flags.get(t * 4 + u).copied().unwrap_or(0);
            let (owner, signers) = if u == 3 { (multisig_key(&prog), self.members[..self.m].to_vec()) } else { (user(u), vec![]) };
            let non_tr = types.contains(&X::NonTransferable);
            let o = AcctOpts { immutable: f & 4 != 0 && !non_tr, memo: f & 2 != 0 && !frozen, guard: f & 1 != 0 && !frozen };
            create_account(&mut self.w, vm, holder_acct(t, u), mint, prog, &types, owner, &signers, o);
            if frozen {
                let ix = ix_freeze(prog, holder_acct(t, u), mint, false);
                self.w.must(vm, &ix);
            }
        }
    }

    fn make_pair(&mut self, vm: &mut Vm, s: &LabSpec, ut: usize, wprog: Pubkey, level: usize) -> usize {
        let p = Pair::new(self.toks[ut].mint, self.toks[ut].prog, wprog);
        create_pair(&mut self.w, vm, &p);
        self.w.fund(p.wauth, 100_000_000);
        let types = if wprog == T22 { vec![X::ConfidentialTransferMint, X::MetadataPointer] } else { vec![] };
        let wt = self.toks.len();
        let decimals = self.toks[ut].decimals;
        self.toks.push(Tok { mint: p.wmint, prog: wprog, types, cfg: None, decimals, hook_extras: vec![] });
        self.make_accounts(vm, s, wt);
        // what somebody may send to the program's own address besides the escrow's
        for t in [ut, wt] {
            let mut a = self.w.a[&holder_acct(t, 0)].clone();
            a.data[32..64].copy_from_slice(p.wauth.as_ref());
            a.data[64..72].fill(0);
            if self.toks[t].cfg.as_ref().map(|c| c.native).unwrap_or(false) {
                a.lamports = vm.rent(a.data.len());
            }
            self.w.a.insert(pda_held(t, self.pairs.len()), a);
        }
        self.pairs.push(LPair { p, u: ut, w: wt, level });
        wt
    }

    pub fn ti(&self, t: u8) -> usize {
        t as usize * self.toks.len() / 256
    }
    pub fn pi(&self, p: u8) -> usize {
        p as usize * self.pairs.len() / 256
    }
    pub fn bases(&self) -> Vec<usize> {
        (0..self.toks.len()).filter(|i| self.toks[*i].cfg.is_some()).collect()
    }
    pub fn bi(&self, t: u8) -> usize {
        let b = self.bases();
        b[t as usize * b.len() / 256]
    }
    pub fn owner_key(&self, t: usize, u: usize) -> Pubkey {
        if u == 3 {
            multisig_key(&self.toks[t].prog)
        } else {
            user(u)
        }
    }
    /// The authority meta and the signer metas that follow it.
    pub fn auth(&self, t: usize, u: usize, a: &Auth) -> (AccountMeta, Vec<AccountMeta>) {
        let owner = self.owner_key(t, u);
        let delegate = self.w.acct(&holder_acct(t, u)).and_then(|x| x.delegate).unwrap_or(user(1));
        let ms = multisig_key(&self.toks[t].prog);
        let n = self.members.len();
        let pick = |v: &Vec<u8>| -> Vec<AccountMeta> {
            v.iter().map(|i| if (*i as usize) < n { rs(self.members[*i as usize]) } else { rs(outsider(*i)) }).collect()
        };
        let by = |k: Pubkey| -> (AccountMeta, Vec<AccountMeta>) {
            if k == ms {
                (r(k), self.members[..self.m].iter().map(|k| rs(*k)).collect())
            } else {
                (rs(k), vec![])
            }
        };
        match a {
            Auth::Owner => by(owner),
            Auth::Delegate => by(delegate),
            Auth::Unsigned => (r(owner), vec![]),
            Auth::Stranger(i) => match i {
                3 => (r(multisig_key(&self.toks[t].prog)), self.members[..self.m].iter().map(|k| rs(*k)).collect()),
                4 => (rs(key("stranger", 0)), vec![]),
                i => (rs(stranger_user(*i, u)), vec![]),
            },
            Auth::Signers(v) => (by(owner).0, pick(v)),
            Auth::DelegateSigners(v) => (by(delegate).0, pick(v)),
            Auth::Listed(v, l) => {
                let mut s = pick(v);
                for m in pick(l) {
                    if !s.iter().any(|x| x.pubkey == m.pubkey) {
                        s.push(r(m.pubkey));
                    }
                }
                (by(owner).0, s)
            }
        }
    }
    pub fn hook_tail(&self, t: usize) -> Vec<AccountMeta> {
        match &self.toks[t].cfg {
            Some(c) if c.ext & xb::HOOK != 0 => hook_metas(&self.toks[t].mint, &self.toks[t].hook_extras),
            _ => vec![],
        }
    }

    /// Executes a wrap on the program and on the token programs; keeps the program's result.
    pub fn wrap(&mut self, vm: &mut Vm, pi: usize, source: Pubkey, rcpt: Pubkey, auth: AccountMeta, signers: &[AccountMeta], tail: &[AccountMeta], amount: u64) -> Outcome {
        let p = self.pairs[pi].p.clone();
        let decimals = self.w.mint(&p.umint).map(|m| m.decimals).unwrap_or(0);
        let extra = with_tail(signers, tail, amount);
        // reference
        let mut refw = self.w.clone();
        let reference: Result<(), String> = (|| {
            if amount == 0 {
                return Err("a wrap of zero is to be refused".into());
            }
            if p.uprog == T22 && guard_blocks(&refw, &source, &auth.pubkey) {
                return Err("the source is CPI-guarded against its owner".into());
            }
            let before = refw.amount(&p.escrow);
            let t = ix_transfer(p.uprog, source, p.umint, p.escrow, auth.clone(), &extra, amount, decimals);
            refw.exec(vm, &t).map_err(|e| format!("the token program refuses the transfer: {e:?}"))?;
            let got = refw.amount(&p.escrow) - before;
            let mut mt = ix_mint_to(p.wprog, p.wmint, rcpt, p.wauth, got);
            mt.accounts[2].is_signer = true;
            refw.exec(vm, &mt).map_err(|e| format!("the token program refuses the mint: {e:?}"))
        })();
        let ix = ix_wrap(&p, rcpt, source, auth, &extra, amount);
        self.settle(vm, &ix, reference, refw, amount)
    }

    pub fn unwrap(&mut self, vm: &mut Vm, pi: usize, source: Pubkey, rcpt: Pubkey, auth: AccountMeta, signers: &[AccountMeta], tail: &[AccountMeta], amount: u64) -> Outcome {
        let p = self.pairs[pi].p.clone();
        let decimals = self.w.mint(&p.umint).map(|m| m.decimals).unwrap_or(0);
        let extra = with_tail(signers, tail, amount);
        let mut refw = self.w.clone();
        let reference: Result<(), String> = (|| {
            if amount == 0 {
                return Err("an unwrap of zero is to be refused".into());
            }
            if p.wprog == T22 && guard_blocks(&refw, &source, &auth.pubkey) {
                return Err("the source is CPI-guarded against its owner".into());
            }
            let b = ix_burn(p.wprog, p.wmint, source, auth.clone(), &extra, amount);
            refw.exec(vm, &b).map_err(|e| format!("the token program refuses the burn: {e:?}"))?;
            let t = ix_transfer(p.uprog, p.escrow, p.umint, rcpt, rs(p.wauth), &extra, amount, decimals);
            refw.exec(vm, &t).map_err(|e| format!("the token program refuses the release: {e:?}"))
        })();
        let ix = ix_unwrap(&p, rcpt, source, auth, &extra, amount);
        self.settle(vm, &ix, reference, refw, amount)
    }

    fn settle(&mut self, vm: &mut Vm, ix: &Instruction, reference: Result<(), String>, refw: World, amount: u64) -> Outcome {
        let before = self.w.clone();
        let got = self.w.exec(vm, ix);
        let ok = got.is_ok();
        let err = got.clone().err();
        let verdict = match (got, reference) {
            (Err(_), Err(_)) => {
                if before != self.w {
                    Verdict::Differs("a refused instruction changed an account".into())
                } else {
                    Verdict::BothRefuse
                }
            }
            (Err(e), Ok(())) => Verdict::Refused(format!("refused with {e:?}: {}", tail_logs(vm))),
            (Ok(()), Err(e)) => Verdict::Unjustified(e),
            (Ok(()), Ok(())) => match self.w.diff(&refw, &[]) {
                None => Verdict::BothOk,
                Some(d) => Verdict::Differs(format!("program vs token programs: {d}")),
            },
        };
        Outcome { verdict, ok, amount, err }
    }

    pub fn escrow_minus_supply(&self, pi: usize) -> i128 {
        let p = &self.pairs[pi].p;
        self.w.amount(&p.escrow) as i128 - self.w.supply(&p.wmint) as i128
    }
}

pub fn tail_logs(vm: &Vm) -> String {
    let l = vm.logs();
    l[l.len().saturating_sub(8)..].join(" | ")
}

/// What the interpreter saw in one step.
pub struct Event<'a> {
    pub op: &'a Op,
    pub step: usize,
    pub out: Option<Outcome>,
    /// 1 wrap, 2 unwrap
    pub kind: u8,
    pub pair: Option<usize>,
    /// was any instruction of the program accepted
    pub tw_ok: bool,
    /// the recipient is an escrow
    pub to_escrow: Option<usize>,
    pub before: World,
    /// authority class of the wrap or unwrap
    pub auth_class: &'static str,
    pub mixed_accepted: Option<String>,
    pub hook: Option<(u64, u64)>,
}

pub trait Watch {
    fn event(&mut self, lab: &Lab, ev: &Event, st: &mut Stats) -> Result<(), Violation>;
}

pub fn hook_count(w: &World, mint: &Pubkey) -> Option<(u64, u64, u8, Pubkey)> {
    let d = w.data(&hook_record(mint));
    (d.len() == 64).then(|| (tok::u64at(d, 0), tok::u64at(d, 8), d[18], tok::keyat(d, 19)))
}

pub fn auth_class(a: &Auth, u: usize) -> &'static str {
    match (a, u) {
        (Auth::Owner, 3) => "multisig, first m",
        (Auth::Owner, _) => "owner",
        (Auth::Delegate, _) => "delegate",
        (Auth::Unsigned, _) => "unsigned",
        (Auth::Stranger(_), _) => "stranger",
        (Auth::Signers(_), 3) => "multisig, chosen signers",
        (Auth::Signers(_), _) => "owner with extra accounts",
        (Auth::DelegateSigners(_), _) => "delegate with signers",
        (Auth::Listed(..), 3) => "multisig, non-signing members listed",
        (Auth::Listed(..), _) => "owner with extra accounts",
    }
}

pub fn run_op<'a>(l: &mut Lab, vm: &mut Vm, op: &'a Op, step: usize, st: &mut Stats) -> Event<'a> {
    let before = l.w.clone();
    let mut ev = Event {
        op,
        step,
        out: None,
        kind: 0,
        pair: None,
        tw_ok: false,
        to_escrow: None,
        before,
        auth_class: "",
        mixed_accepted: None,
        hook: None,
    };
    let u4 = |u: &u8| (*u % 4) as usize;
    let owner_auth = |l: &Lab, t: usize, u: usize| l.auth(t, u, &Auth::Owner);
    match op {
        Op::Wrap { pair, u, to, amt, auth } => {
            let pi = l.pi(*pair);
            let (ut, wt) = (l.pairs[pi].u, l.pairs[pi].w);
            let u = u4(u);
            let src = holder_acct(ut, u);
            let (a, s) = l.auth(ut, u, auth);
            let amount = amt.of(l.w.amount(&src));
            let tail = l.hook_tail(ut);
            let out = l.wrap(vm, pi, src, holder_acct(wt, u4(to)), a, &s, &tail, amount);
            ev.kind = 1;
            ev.tw_ok = out.ok;
            ev.auth_class = auth_class(auth, u);
            st.hit(format!("wrap {}", if out.ok { "accepted" } else { "refused" }));
            ev.out = Some(out);
            ev.pair = Some(pi);
        }
        Op::Unwrap { pair, u, to, amt, auth } => {
            let pi = l.pi(*pair);
            let (ut, wt) = (l.pairs[pi].u, l.pairs[pi].w);
            let u = u4(u);
            let src = holder_acct(wt, u);
            let (a, s) = l.auth(wt, u, auth);
            let amount = amt.of(l.w.amount(&src));
            let tail = l.hook_tail(ut);
            let rcpt = match to {
                Rcpt::User(v) => holder_acct(ut, u4(v)),
                Rcpt::Escrow(q) => {
                    let q = l.pi(*q);
                    ev.to_escrow = Some(q);
                    l.pairs[q].p.escrow
                }
            };
            let out = l.unwrap(vm, pi, src, rcpt, a, &s, &tail, amount);
            ev.kind = 2;
            ev.tw_ok = out.ok;
            ev.auth_class = auth_class(auth, u);
            st.hit(format!("unwrap {}", if out.ok { "accepted" } else { "refused" }));
            ev.out = Some(out);
            ev.pair = Some(pi);
        }
        Op::Free { pair, unwrap, src, dst, auth, signed, tail, amt } => {
            let pi = l.pi(*pair);
            let (ut, wt) = (l.pairs[pi].u, l.pairs[pi].w);
            let (from, to) = if *unwrap { (wt, ut) } else { (ut, wt) };
            let pool = |t: usize, i: u8, own: bool| -> Pubkey {
                // the accounts of the token, its escrows (often), and now and then any account at all
                let mut v: Vec<Pubkey> = (0..4).map(|u| holder_acct(t, u)).collect();
                let e: Vec<Pubkey> = l.pairs.iter().filter(|q| q.u == t).map(|q| q.p.escrow).collect();
                for _ in 0..if own { 3 } else { 1 } {
                    v.extend(&e);
                }
                v.extend(l.pairs.iter().map(|q| q.p.escrow));
                v.extend([pda_held(t, pi); 2]);
                v.push(holder_acct(i as usize % l.toks.len(), i as usize % 4));
                v[i as usize % v.len()]
            };
            let source = pool(from, *src, true);
            let rcpt = pool(to, *dst, false);
            let mut keys: Vec<(Pubkey, bool)> = vec![];
            if let Some(o) = l.w.acct(&source).map(|a| a.owner) {
                let pda = l.pairs.iter().any(|q| q.p.wauth == o);
                let multi = [multisig_key(&SPL), multisig_key(&T22)].contains(&o);
                keys.extend([(o, !pda && !multi); 4]);
            }
            keys.extend(l.pairs.iter().map(|q| (q.p.wauth, false)));
            keys.extend((0..3).map(|u| (user(u), true)));
            keys.extend([(mint_authority_key(), true), (key("payer", 0), true), (l.pairs[pi].p.escrow, false), (multisig_key(&l.toks[from].prog), false)]);
            let (k, can_sign) = keys[*auth as usize % keys.len()];
            let a = if can_sign && *signed { rs(k) } else { r(k) };
            let mut s = match tail % 4 {
                0 if !can_sign => l.members[..l.m].iter().map(|k| rs(*k)).collect(),
                1 => vec![r(l.pairs[pi].p.wauth)],
                2 => vec![rs(outsider(0))],
                _ => vec![],
            };
            if s.iter().any(|m: &AccountMeta| m.pubkey == k) {
                s.clear();
            }
            let amount = amt.of(l.w.amount(&source));
            let t = l.hook_tail(ut);
            let e = l.pairs.iter().position(|q| q.p.escrow == rcpt);
            let own = l.w.acct(&source).map(|x| x.owner == k).unwrap_or(false);
            ev.auth_class = match (own, can_sign && *signed) {
                (true, false) => "any source, its owner unsigned",
                (true, true) => "any source, its owner",
                _ => "any source, any authority",
            };
            let out = if *unwrap { l.unwrap(vm, pi, source, rcpt, a, &s, &t, amount) } else { l.wrap(vm, pi, source, rcpt, a, &s, &t, amount) };
            st.hit(format!("free {}: {}", if *unwrap { "unwrap" } else { "wrap" }, if out.ok { "accepted" } else { "refused" }));
            ev.to_escrow = e;
            ev.kind = 1 + *unwrap as u8;
            ev.tw_ok = out.ok;
            ev.out = Some(out);
            ev.pair = Some(pi);
        }
        Op::DropHookAccount { pair, u, unwrap, which } => {
            let pi = l.pi(*pair);
            let (ut, wt) = (l.pairs[pi].u, l.pairs[pi].w);
            let mut tail = l.hook_tail(ut);
            if !tail.is_empty() {
                let u = u4(u);
                let d = *which as usize % (tail.len() + 1);
                if d == tail.len() {
                    tail.rotate_left(1); // another order
                } else {
                    tail.remove(d);
                }
                let out = if *unwrap {
                    let (a, s) = l.auth(wt, u, &Auth::Owner);
                    let amount = l.w.amount(&holder_acct(wt, u)) / 2;
                    l.unwrap(vm, pi, holder_acct(wt, u), holder_acct(ut, u), a, &s, &tail, amount)
                } else {
                    let (a, s) = l.auth(ut, u, &Auth::Owner);
                    let amount = l.w.amount(&holder_acct(ut, u)) / 2;
                    l.wrap(vm, pi, holder_acct(ut, u), holder_acct(wt, u), a, &s, &tail, amount)
                };
                st.hit(format!("hook accounts incomplete or reordered: {}", if out.ok { "accepted" } else { "refused" }));
                ev.kind = 1 + *unwrap as u8;
                ev.tw_ok = out.ok;
                ev.auth_class = "owner";
                ev.out = Some(out);
                ev.pair = Some(pi);
            }
        }
        Op::MintMore { tok, u, amt } => {
            let t = l.bi(*tok);
            let a = holder_acct(t, u4(u));
            let amount = amt.of(l.w.amount(&a));
            let ix = ix_mint_to(l.toks[t].prog, l.toks[t].mint, a, mint_authority_key(), amount);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Transfer { tok, from, to, amt } => {
            let t = l.ti(*tok);
            let (s, mut d) = (holder_acct(t, u4(from)), holder_acct(t, u4(to)));
            if *to >= 236 {
                let q: Vec<usize> = (0..l.pairs.len()).filter(|i| l.pairs[*i].u == t || l.pairs[*i].w == t).collect();
                d = q.get(*to as usize % q.len().max(1)).map(|i| pda_held(t, *i)).unwrap_or(d);
            }
            let (a, sig) = owner_auth(l, t, u4(from));
            let amount = amt.of(l.w.amount(&s));
            let mut ex = sig;
            ex.extend(l.hook_tail(t));
            let ix = ix_transfer(l.toks[t].prog, s, l.toks[t].mint, d, a, &ex, amount, l.toks[t].decimals);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Burn { tok, u, amt } => {
            let t = l.ti(*tok);
            let s = holder_acct(t, u4(u));
            let (a, sig) = owner_auth(l, t, u4(u));
            let amount = amt.of(l.w.amount(&s));
            let ix = ix_burn(l.toks[t].prog, l.toks[t].mint, s, a, &sig, amount);
            if l.w.exec(vm, &ix).is_ok() && amount > 0 {
                st.hit("direct burn");
            }
        }
        Op::Approve { tok, u, to, amt } => {
            let t = l.ti(*tok);
            let s = holder_acct(t, u4(u));
            let (a, sig) = owner_auth(l, t, u4(u));
            let amount = amt.of(l.w.amount(&s));
            let d = l.owner_key(t, u4(to));
            let ix = ix_approve(l.toks[t].prog, s, d, a, &sig, amount);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Revoke { tok, u } => {
            let t = l.ti(*tok);
            let (a, sig) = owner_auth(l, t, u4(u));
            let ix = ix_revoke(l.toks[t].prog, holder_acct(t, u4(u)), a, &sig);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Freeze { tok, u, on } => {
            let t = l.ti(*tok);
            let ix = ix_freeze(l.toks[t].prog, holder_acct(t, u4(u)), l.toks[t].mint, *on);
            if l.w.exec(vm, &ix).is_ok() {
                st.hit("freeze or thaw");
            }
        }
        Op::FreezeEscrow { pair, on } => {
            let p = &l.pairs[l.pi(*pair)].p;
            let ix = ix_freeze(p.uprog, p.escrow, p.umint, *on);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Pause { tok, on } => {
            let t = l.bi(*tok);
            let ix = ix_pause(l.toks[t].mint, *on);
            let _ = l.w.exec(vm, &ix);
        }
        Op::SetFee { tok, fee } => {
            let t = l.bi(*tok);
            let ix = ix_set_fee(l.toks[t].mint, *fee);
            if l.w.exec(vm, &ix).is_ok() {
                st.hit("fee change");
            }
        }
        Op::Warp { n } => {
            let e = vm.epoch();
            vm.set_epoch(e + *n as u64);
        }
        Op::Donate { pair, u, amt } => {
            let pi = l.pi(*pair);
            let t = l.pairs[pi].u;
            let s = holder_acct(t, u4(u));
            let (a, sig) = owner_auth(l, t, u4(u));
            let amount = amt.of(l.w.amount(&s));
            let mut ex = sig;
            ex.extend(l.hook_tail(t));
            let ix = ix_transfer(l.toks[t].prog, s, l.toks[t].mint, l.pairs[pi].p.escrow, a, &ex, amount, l.toks[t].decimals);
            if l.w.exec(vm, &ix).is_ok() && amount > 0 {
                st.hit("donation to an escrow");
            }
        }
        Op::Harvest { tok, withdraw } => {
            let t = l.bi(*tok);
            let mut accts: Vec<Pubkey> = (0..4).map(|u| holder_acct(t, u)).collect();
            accts.extend(l.pairs.iter().filter(|p| p.u == t).map(|p| p.p.escrow));
            let ix = if *withdraw { ix_withdraw_withheld(l.toks[t].mint, holder_acct(t, 0), &accts) } else { ix_harvest(l.toks[t].mint, &accts) };
            if l.w.exec(vm, &ix).is_ok() {
                st.hit("withheld fees collected");
            }
        }
        Op::Guard { tok, u, on } => {
            let t = l.ti(*tok);
            let (a, sig) = owner_auth(l, t, u4(u));
            let ix = ix_guard(holder_acct(t, u4(u)), a, &sig, *on);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Memo { tok, u, on } => {
            let t = l.ti(*tok);
            let (a, sig) = owner_auth(l, t, u4(u));
            let ix = ix_memo(holder_acct(t, u4(u)), a, &sig, *on);
            let _ = l.w.exec(vm, &ix);
        }
        Op::HookRefuse { tok, on } => {
            let t = l.bi(*tok);
            if let Some(a) = l.w.a.get_mut(&hook_record(&l.toks[t].mint)) {
                a.data[16] = *on as u8;
            }
        }
        Op::Dust { pair, which, amount } => {
            let p = l.pairs[l.pi(*pair)].p.clone();
            let k = [p.wmint, p.backptr, p.escrow, p.wauth, canonical_pointer(&p.umint)][*which as usize % 5];
            if l.w.a.contains_key(&k) {
                l.w.fund(k, *amount as u64);
            }
        }
        Op::CreateAgain { pair, idempotent } => {
            let pi = l.pi(*pair);
            let ix = ix_create_mint(&l.pairs[pi].p, *idempotent);
            ev.pair = Some(pi);
            ev.tw_ok = l.w.exec(vm, &ix).is_ok();
            st.hit(format!("create again, idempotent {idempotent}: {}", if ev.tw_ok { "accepted" } else { "refused" }));
        }
        Op::CloseStuck { pair } => {
            let pi = l.pi(*pair);
            let ix = ix_close_stuck(&l.pairs[pi].p, key("destination", 0));
            ev.pair = Some(pi);
            ev.tw_ok = l.w.exec(vm, &ix).is_ok();
            st.hit(format!("close stuck: {}", if ev.tw_ok { "accepted" } else { "refused" }));
        }
        Op::Sync { pair } => {
            let pi = l.pi(*pair);
            let p = &l.pairs[pi].p;
            let src = [metaplex_pda(&p.umint)];
            let ix = if p.wprog == T22 { ix_sync22(p, &src) } else { ix_sync_spl(p, &src) };
            ev.pair = Some(pi);
            ev.tw_ok = l.w.exec(vm, &ix).is_ok();
            st.hit(format!("sync: {}", if ev.tw_ok { "accepted" } else { "refused" }));
        }
        Op::SetPointer { tok, who, target } => {
            let t = l.ti(*tok);
            let a = if *who == 0 { mint_authority_key() } else { user(u4(who).min(2)) };
            let c = canonical_pointer(&l.toks[t].mint);
            if !l.w.a.contains_key(&c) {
                l.w.fund(c, vm.rent(32));
            }
            ev.before = l.w.clone();
            let ix = ix_set_pointer(rs(a), l.toks[t].mint, key("target", *target as u64));
            ev.tw_ok = l.w.exec(vm, &ix).is_ok();
            st.hit(format!("set pointer: {}", if ev.tw_ok { "accepted" } else { "refused" }));
        }
        Op::RevokeMintAuth { tok } => {
            let t = l.bi(*tok);
            let ix = ix_set_authority(l.toks[t].prog, l.toks[t].mint, None, AuthorityType::MintTokens, rs(mint_authority_key()), &[]);
            let _ = l.w.exec(vm, &ix);
        }
        Op::Mix { a, b, mask, unwrap, u, amt } => {
            let (ia, ib) = (l.pi(*a), l.pi(*b));
            let u = u4(u);
            let build = |l: &Lab, i: usize, amount: u64| {
                let (ut, wt) = (l.pairs[i].u, l.pairs[i].w);
                if *unwrap {
                    let (am, s) = l.auth(wt, u, &Auth::Owner);
                    ix_unwrap(&l.pairs[i].p, holder_acct(ut, u), holder_acct(wt, u), am, &s, amount)
                } else {
                    let (am, s) = l.auth(ut, u, &Auth::Owner);
                    ix_wrap(&l.pairs[i].p, holder_acct(wt, u), holder_acct(ut, u), am, &s, amount)
                }
            };
            let st_acct = holder_acct(if *unwrap { l.pairs[ia].w } else { l.pairs[ia].u }, u);
            let amount = amt.of(l.w.amount(&st_acct));
            let (xa, xb_) = (build(l, ia, amount), build(l, ib, amount));
            let mut ix = xa.clone();
            for i in 0..9 {
                if mask & (1 << i) != 0 {
                    ix.accounts[i] = xb_.accounts[i].clone();
                }
            }
            for ex in [&xa, &xb_] {
                for i in 9..ex.accounts.len() {
                    if !ix.accounts[9..].contains(&ex.accounts[i]) {
                        ix.accounts.push(ex.accounts[i].clone());
                    }
                }
            }
            let same = |x: &Instruction| (0..9).all(|i| x.accounts[i].pubkey == ix.accounts[i].pubkey);
            if !same(&xa) && !same(&xb_) {
                ev.tw_ok = l.w.exec(vm, &ix).is_ok();
                if ev.tw_ok {
                    ev.mixed_accepted = Some(format!("{} mixing pairs {ia} and {ib} (mask {mask:09b})", if *unwrap { "unwrap" } else { "wrap" }));
                }
                st.hit("mixed pairs");
            }
        }
    }
    if let (Some(pi), true) = (ev.pair, ev.kind > 0) {
        let m = l.toks[l.pairs[pi].u].mint;
        if let (Some(b), Some(a)) = (hook_count(&ev.before, &m), hook_count(&l.w, &m)) {
            ev.hook = Some((a.0 - b.0, a.1.wrapping_sub(b.1)));
        }
    }
    ev
}

/// Lifts every temporary block, then has every holder redeem everything,
/// innermost-created pair last.
pub fn liquidate(l: &mut Lab, vm: &mut Vm, liq: &[u8], st: &mut Stats) -> Result<(), Violation> {
    for t in 0..l.toks.len() {
        let (mint, prog) = (l.toks[t].mint, l.toks[t].prog);
        let _ = l.w.exec(vm, &ix_pause(mint, false));
        if let Some(a) = l.w.a.get_mut(&hook_record(&mint)) {
            a.data[16] = 0;
        }
        for u in 0..4 {
            let k = holder_acct(t, u);
            if l.w.acct(&k).map(|a| a.state == 2).unwrap_or(false) {
                let _ = l.w.exec(vm, &ix_freeze(prog, k, mint, false));
            }
            if l.w.acct(&k).map(|a| a.delegate.is_some()).unwrap_or(false) {
                // an owner who is also the delegate is held to the allowance
                let (a, s) = l.auth(t, u, &Auth::Owner);
                let _ = l.w.exec(vm, &ix_revoke(prog, k, a, &s));
            }
            if prog == T22 {
                let (a, s) = l.auth(t, u, &Auth::Owner);
                let _ = l.w.exec(vm, &ix_guard(k, a.clone(), &s, false));
                let _ = l.w.exec(vm, &ix_memo(k, a, &s, false));
            }
        }
    }
    for pi in 0..l.pairs.len() {
        let p = l.pairs[pi].p.clone();
        if l.w.acct(&p.escrow).map(|a| a.state == 2).unwrap_or(false) {
            let _ = l.w.exec(vm, &ix_freeze(p.uprog, p.escrow, p.umint, false));
        }
    }
    let mut k = 0;
    for pi in (0..l.pairs.len()).rev() {
        let (ut, wt) = (l.pairs[pi].u, l.pairs[pi].w);
        for u in 0..4 {
            let src = holder_acct(wt, u);
            loop {
                let bal = l.w.amount(&src);
                if bal == 0 {
                    break;
                }
                // at most three parts
                let part = match liq.get(k).copied().unwrap_or(255) {
                    255 => bal,
                    x => ((bal as u128 * x as u128 / 255) as u64).clamp(1, bal),
                };
                k += 1;
                let part = if k % 3 == 0 { bal } else { part };
                let (a, mut s) = l.auth(wt, u, &Auth::Owner);
                let tail = l.hook_tail(ut);
                if !s.is_empty() {
                    // the token programs want a member's signature wherever it is listed
                    let more: Vec<_> = l.members.iter().filter(|m| tail.iter().any(|t| t.pubkey == **m) && !s.iter().any(|x| x.pubkey == **m)).collect();
                    s.extend(more.into_iter().map(|m| rs(*m)));
                }
                let o = l.unwrap(vm, pi, src, holder_acct(ut, u), a, &s, &tail, part);
                if !o.ok {
                    return viol(
                        "redemption-refused",
                        format!("pair {pi}: redeeming {part} of {bal} by holder {u} is refused: {:?} ({:?}); escrow {} supply {}", o.verdict, o.err,
                            l.w.amount(&l.pairs[pi].p.escrow), l.w.supply(&l.pairs[pi].p.wmint)),
                    );
                }
                if let Verdict::Differs(d) = o.verdict {
                    return viol("redemption-differs", d);
                }
                st.hit("redemption step");
            }
        }
    }
    Ok(())
}

// ---- generators ----
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Focus {
    History,
    Wrap,
    Unwrap,
    Auth,
    Isolation,
    Hook,
    Redeem,
}

pub fn fee() -> BoxedStrategy<Fee> {
    let bps = prop_oneof![Just(0u16), Just(1), Just(10_000), Just(9_999), 0u16..=10_000, 1u16..300];
    let max = prop_oneof![Just(0u64), Just(1), Just(u64::MAX), 1u64..5_000, any::<u64>(), (0u8..64).prop_map(|n| 1 << n)];
    (bps, max).prop_map(|(bps, max)| Fee { bps, max }).boxed()
}

pub fn ext_bits(f: Focus) -> BoxedStrategy<u32> {
    let mut all: u32 = xb::ALL.iter().fold(0, |a, b| a | b);
    all &= !xb::PERM_DELEGATE;
    let rare = xb::NON_TRANSFERABLE;
    let base = prop_oneof![
        2 => Just(0u32),
        3 => Just(xb::FEE),
        2 => Just(xb::HOOK),
        1 => Just(xb::HOOK | xb::FEE),
        1 => Just(xb::PAUSABLE),
        1 => Just(xb::META_POINTER),
        1 => Just(xb::DEFAULT_FROZEN),
        5 => any::<u32>().prop_map(move |x| x & all & !rare),
        5 => (any::<u32>(), any::<u32>()).prop_map(move |(x, y)| x & y & all & !rare),
        1 => any::<u32>().prop_map(move |x| x & all),
    ];
    base.prop_map(move |x| match f {
        Focus::Hook => x | xb::HOOK,
        _ => x,
    })
    .boxed()
}

pub fn mint_cfg(f: Focus) -> BoxedStrategy<MintCfg> {
    let t22 = if f == Focus::Hook { Just(true).boxed() } else { prop::bool::weighted(0.7).boxed() };
    (
        t22,
        prop::bool::weighted(if f == Focus::Hook { 0.0001 } else { 0.07 }),
        prop_oneof![Just(0u8), Just(9), 0u8..=19, any::<u8>()],
        any::<bool>(),
        ext_bits(f),
        vec((0u8..4, fee()), 1..4),
    )
        .prop_map(|(t22, native, decimals, freeze, ext, fees)| MintCfg { t22, native, decimals, freeze, ext, fees }.norm())
        .boxed()
}

pub fn mint_spec(f: Focus) -> BoxedStrategy<MintSpec> {
    let nest = match f {
        Focus::Isolation => vec(any::<bool>(), 0..3).boxed(),
        Focus::Redeem | Focus::History => prop_oneof![3 => Just(vec![]), 1 => vec(any::<bool>(), 1..2)].boxed(),
        _ => prop_oneof![8 => Just(vec![]), 1 => vec(any::<bool>(), 1..2)].boxed(),
    };
    let wprogs = if f == Focus::Isolation { prop_oneof![1 => 1u8..3, 4 => Just(3)].boxed() } else { (1u8..4).boxed() };
    (mint_cfg(f), wprogs, nest, [init_amt(), init_amt(), init_amt(), init_amt()], prop::bool::weighted(0.85), any::<bool>(), prop_oneof![16 => 0u8..5, 1 => 5u8..9])
        .prop_map(|(cfg, wprogs, nest, init, thaw, meta, hook_extras)| MintSpec { cfg, wprogs, nest, init, thaw, meta, hook_extras })
        .boxed()
}

pub fn lab_spec(f: Focus) -> BoxedStrategy<LabSpec> {
    let mints = match f {
        Focus::Isolation => vec(mint_spec(f), 1..4).boxed(),
        Focus::History => vec(mint_spec(f), 1..3).boxed(),
        _ => vec(mint_spec(f), 1..2).boxed(),
    };
    let ms = (1u8..12, 1u8..12).prop_map(|(a, b)| (a.min(b), a.max(b)));
    let ms = prop_oneof![2 => Just((2u8, 3u8)), 2 => ms, 1 => Just((1, 1)), 1 => Just((11, 11))];
    let flag = prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => 0u8..8];
    (mints, ms, vec(flag, 0..16), prop_oneof![3 => Just(0u8), 1 => 0u8..5])
        .prop_map(|(mints, ms, acct_flags, warp)| LabSpec { mints, ms, acct_flags, warp })
        .boxed()
}

pub fn op(f: Focus) -> BoxedStrategy<Op> {
    let i = any::<u8>;
    let auth_s = match f {
        Focus::Auth => auth(),
        Focus::Hook => prop_oneof![4 => Just(Auth::Owner), 2 => Just(Auth::Delegate), 3 => auth()].boxed(),
        _ => prop_oneof![12 => Just(Auth::Owner), 2 => Just(Auth::Delegate), 2 => auth()].boxed(),
    };
    let amt_s = match f {
        Focus::Auth => prop_oneof![3 => amt(), 3 => any::<u8>().prop_map(Amt::Frac)].boxed(),
        _ => amt(),
    };
    let to = match f {
        Focus::History | Focus::Isolation => prop_oneof![9 => i().prop_map(Rcpt::User), 1 => i().prop_map(Rcpt::Escrow)].boxed(),
        _ => prop_oneof![30 => i().prop_map(Rcpt::User), 1 => i().prop_map(Rcpt::Escrow)].boxed(),
    };
    let wrap = (i(), i(), i(), amt_s.clone(), auth_s.clone()).prop_map(|(pair, u, to, amt, auth)| Op::Wrap { pair, u, to, amt, auth }).boxed();
    let unwrap = (i(), i(), to, amt_s.clone(), auth_s).prop_map(|(pair, u, to, amt, auth)| Op::Unwrap { pair, u, to, amt, auth }).boxed();
    let (ww, wu) = match f {
        Focus::Wrap => (40, 6),
        Focus::Unwrap => (18, 40),
        Focus::Auth => (25, 25),
        Focus::Hook => (25, 20),
        Focus::Isolation => (25, 18),
        _ => (25, 18),
    };
    let approve = (i(), i(), i(), amt()).prop_map(|(tok, u, to, amt)| Op::Approve { tok, u, to, amt });
    let token_ops = prop_oneof![
        2 => (i(), i(), amt()).prop_map(|(tok, u, amt)| Op::MintMore { tok, u, amt }),
        4 => (i(), i(), i(), amt()).prop_map(|(tok, from, to, amt)| Op::Transfer { tok, from, to, amt }),
        2 => (i(), i(), amt()).prop_map(|(tok, u, amt)| Op::Burn { tok, u, amt }),
        if f == Focus::Auth { 20 } else { 4 } => approve,
        1 => (i(), i()).prop_map(|(tok, u)| Op::Revoke { tok, u }),
        2 => (i(), i(), any::<bool>()).prop_map(|(tok, u, on)| Op::Freeze { tok, u, on }),
        1 => (i(), any::<bool>()).prop_map(|(pair, on)| Op::FreezeEscrow { pair, on }),
        1 => (i(), any::<bool>()).prop_map(|(tok, on)| Op::Pause { tok, on }),
        5 => (i(), fee()).prop_map(|(tok, fee)| Op::SetFee { tok, fee }),
        5 => (1u8..4).prop_map(|n| Op::Warp { n }),
        2 => (i(), i(), amt()).prop_map(|(pair, u, amt)| Op::Donate { pair, u, amt }),
        1 => (i(), any::<bool>()).prop_map(|(tok, withdraw)| Op::Harvest { tok, withdraw }),
        1 => (i(), i(), any::<bool>()).prop_map(|(tok, u, on)| Op::Guard { tok, u, on }),
        1 => (i(), i(), any::<bool>()).prop_map(|(tok, u, on)| Op::Memo { tok, u, on }),
        if f == Focus::Hook { 6 } else { 1 } => (i(), any::<bool>()).prop_map(|(tok, on)| Op::HookRefuse { tok, on }),
        if f == Focus::Hook { 20 } else { 1 } => (i(), i(), any::<bool>(), i()).prop_map(|(pair, u, unwrap, which)| Op::DropHookAccount { pair, u, unwrap, which }),
        1 => (i(), i(), any::<u16>()).prop_map(|(pair, which, amount)| Op::Dust { pair, which, amount }),
        1 => i().prop_map(|tok| Op::RevokeMintAuth { tok }),
    ];
    let program_ops = prop_oneof![
        3 => (i(), any::<bool>()).prop_map(|(pair, idempotent)| Op::CreateAgain { pair, idempotent }),
        3 => i().prop_map(|pair| Op::CloseStuck { pair }),
        3 => i().prop_map(|pair| Op::Sync { pair }),
        2 => (i(), prop_oneof![3 => Just(0u8), 1 => i()], i()).prop_map(|(tok, who, target)| Op::SetPointer { tok, who, target }),
        if f == Focus::Isolation { 12 } else { 2 } =>
            (i(), i(), 1u16..511, any::<bool>(), i(), amt()).prop_map(|(a, b, mask, unwrap, u, amt)| Op::Mix { a, b, mask, unwrap, u, amt }),
    ];
    let free = (i(), any::<bool>(), i(), i(), i(), prop::bool::weighted(0.8), i(), prop_oneof![2 => any::<u8>().prop_map(Amt::Frac), 1 => amt()])
        .prop_map(|(pair, unwrap, src, dst, auth, signed, tail, amt)| Op::Free { pair, unwrap, src, dst, auth, signed, tail, amt });
    let wf = match f {
        Focus::Auth => 16,
        Focus::History | Focus::Isolation => 5,
        _ => 2,
    };
    let wp = if f == Focus::Isolation { 16 } else if f == Focus::History { 9 } else { 2 };
    prop_oneof![ww => wrap, wu => unwrap, 22 => token_ops, wp => program_ops, wf => free].boxed()
}

pub fn lab_case(f: Focus, max_ops: usize) -> BoxedStrategy<LabCase> {
    // some wraps first, so that there is something to redeem
    let first = match f {
        Focus::Wrap => 0..1,
        Focus::Isolation | Focus::History => 2..8,
        _ => 1..5usize,
    };
    let frac = prop_oneof![4 => any::<u8>().prop_map(Amt::Frac), 1 => Just(Amt::Bal), 1 => amt()];
    let opening = (any::<u8>(), 0u8..4, frac, any::<bool>())
        .prop_map(|(pair, u, amt, me)| Op::Wrap { pair, u, to: if me { u } else { 3 - u }, amt, auth: Auth::Owner });
    (lab_spec(f), vec(opening, first), vec(op(f), 1..=max_ops), vec(any::<u8>(), 0..12))
        .prop_map(|(spec, mut opening, ops, liq)| {
            opening.extend(ops);
            LabCase { spec, ops: opening, liq }
        })
        .boxed()
}

pub fn exts_class(l: &Lab) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for t in &l.toks {
        for x in &t.types {
            *m.entry(format!("mint extension {x:?}")).or_default() += 1;
        }
    }
    m
}
