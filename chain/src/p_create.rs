//! C07 (created mints are faithful), C08 (created once, never overwritten),
//! C21 (the alternative customizers).
use {
    crate::{engine::*, lab::*, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_pubkey::Pubkey,
};

/// An unwrapped mint, made by the token program and then given any valid field values.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AnyMint {
    pub cfg: MintCfg,
    pub id: u64,
    pub supply: u64,
    pub authority: Option<u8>,
    /// None: as configured
    pub freeze: Option<Option<u8>>,
    pub metadata: Option<(String, String, String)>,
}
fn named() -> BoxedStrategy<u8> {
    prop_oneof![2 => any::<u8>(), 1 => 200u8..203, 1 => 230u8..241].boxed()
}
pub fn any_mint() -> BoxedStrategy<AnyMint> {
    let ext = prop_oneof![
        1 => Just(0u32),
        4 => any::<u32>().prop_map(|x| x & 0xffff),
        3 => (0usize..16).prop_map(|i| xb::ALL[i]),
        2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b & 0xffff)
    ];
    let cfg = (prop::bool::weighted(0.65), prop::bool::weighted(0.05), any::<u8>(), any::<bool>(), ext, vec((0u8..3, fee()), 1..2)).prop_map(
        |(t22, native, decimals, freeze, ext, fees)| MintCfg { t22, native, decimals, freeze, ext, fees }.norm(),
    );
    let decimals = prop_oneof![Just(0u8), Just(9), Just(255), any::<u8>()];
    (
        cfg,
        decimals,
        any::<u64>(),
        prop_oneof![Just(0u64), Just(u64::MAX), any::<u64>()],
        prop::option::of(named()),
        prop::option::of(prop::option::of(named())),
        prop::option::weighted(0.3, ("[a-z]{0,40}", "[A-Z]{0,10}", ".{0,60}")),
    )
        .prop_map(|(mut cfg, d, id, supply, authority, freeze, metadata)| {
            if !cfg.native {
                cfg.decimals = d;
            }
            AnyMint { cfg, id, supply, authority, freeze, metadata }
        })
        .boxed()
}
pub fn put_any_mint(wd: &mut World, vm: &mut Vm, m: &AnyMint) -> Pubkey {
    let k = if m.cfg.native { if m.cfg.t22 { NATIVE22 } else { NATIVE } } else { key("unwrapped", m.id) };
    create_mint(wd, vm, k, &m.cfg, None);
    if m.cfg.native {
        return k;
    }
    if let (Some((n, s, u)), true) = (&m.metadata, m.cfg.ext & xb::META_POINTER != 0) {
        wd.fund(k, 100_000_000);
        let ix = ix_meta_init(k, admin_key(), mint_authority_key(), n, s, u);
        wd.must(vm, &ix);
    }
    let d = &mut wd.a.get_mut(&k).unwrap().data;
    d[36..44].copy_from_slice(&m.supply.to_le_bytes());
    let put = |d: &mut Vec<u8>, o: usize, v: Option<u8>, tag: &str| {
        d[o..o + 36].fill(0);
        if let Some(i) = v {
            d[o] = 1;
            let pair = |w: Pubkey| Pair::new(k, m.cfg.prog(), w);
            let k = match i {
                0 => Pubkey::default(),
                // one key in several roles, and addresses that mean something to the program
                200..=229 => key("any-authority", 1 + (i % 3) as u64),
                230..=233 => k,
                234 => pair(SPL).wmint,
                235 => pair(T22).wmint,
                236 => pair(SPL).wauth,
                237 => pair(T22).wauth,
                238 => TW,
                239 => m.cfg.prog(),
                240 => SYS,
                i => key(tag, i as u64),
            };
            d[o + 4..o + 36].copy_from_slice(k.as_ref());
        }
    };
    put(d, 0, m.authority, "any-authority");
    if let Some(f) = m.freeze {
        put(d, 46, f, "any-freeze");
    }
    k
}

/// What a Token-2022 wrapped mint of this deployment must carry.
pub fn expected_tlv(d: Deployment, p: &Pair) -> Vec<(u16, Vec<u8>)> {
    match d {
        Deployment::Main => {
            let mut ct = vec![0u8; 65];
            ct[32] = 1;
            let mut mp = p.wauth.to_bytes().to_vec();
            mp.extend_from_slice(p.wmint.as_ref());
            vec![(4, ct), (18, mp)]
        }
        Deployment::NoExt => vec![],
        Deployment::Compliance => {
            let k = Pubkey::from_str_const;
            let mut ct = k("con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK").to_bytes().to_vec();
            ct.push(1);
            // base64 of yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=
            ct.extend_from_slice(&[
                0xca, 0x89, 0xca, 0x86, 0xa9, 0x28, 0x5c, 0xdb, 0xcc, 0x6c, 0xdf, 0xed, 0x53, 0xa7, 0xe3, 0x1c, 0x58, 0x5f, 0x66, 0xe3, 0x4f,
                0xa6, 0xf3, 0x23, 0xf0, 0xbe, 0x79, 0x68, 0xfd, 0x9b, 0x04, 0x6e,
            ]);
            let mut pause = k("pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv").to_bytes().to_vec();
            pause.push(0);
            vec![
                (4, ct),
                (6, vec![1]),
                (12, k("deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR").to_bytes().to_vec()),
                (26, pause),
            ]
        }
    }
}

pub fn check_created(d: Deployment, before: &World, after: &World, p: &Pair) -> Result<(), Violation> {
    let u = before.mint(&p.umint).expect("unwrapped mint");
    let Some(acc) = after.a.get(&p.wmint) else { return viol("no-mint", "the wrapped mint does not exist") };
    if acc.owner != p.wprog {
        return viol("mint-owner", format!("wrapped mint owned by {}", acc.owner));
    }
    let Some(m) = tok::mint(&acc.data) else { return viol("not-a-mint", format!("{}", descr(Some(acc)))) };
    if m.decimals != u.decimals {
        return viol("decimals", format!("decimals {} for an unwrapped mint with {}", m.decimals, u.decimals));
    }
    let freeze = match (d, p.wprog == T22) {
        (Deployment::Compliance, _) => Some(Pubkey::from_str_const("freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h")),
        _ => u.freeze,
    };
    if m.freeze != freeze {
        return viol("freeze-authority", format!("freeze authority {:?}, expected {freeze:?}", m.freeze));
    }
    if m.supply != 0 {
        return viol("supply", format!("supply {}", m.supply));
    }
    if m.authority != Some(p.wauth) {
        return viol("mint-authority", format!("mint authority {:?}, expected {}", m.authority, p.wauth));
    }
    if p.wprog == T22 {
        let mut t = tok::tlv(&acc.data);
        t.sort();
        let e = expected_tlv(d, p);
        if t != e {
            return viol("extensions", format!("extensions {t:?}, expected {e:?}"));
        }
    } else if acc.data.len() != 82 {
        return viol("mint-size", format!("{} bytes", acc.data.len()));
    }
    let Some(b) = after.a.get(&p.backptr) else { return viol("no-backpointer", "the backpointer does not exist") };
    if b.owner != TW || b.data != p.umint.as_ref() {
        return viol("backpointer", format!("owner {} data {:02x?}", b.owner, b.data));
    }
    for k in [p.wmint, p.backptr] {
        if before.lamports(&k) != after.lamports(&k) {
            return viol("funding", format!("lamports of {k} went from {} to {}", before.lamports(&k), after.lamports(&k)));
        }
        let a = &after.a[&k];
        if a.executable {
            return viol("executable", "created account is executable");
        }
    }
    if let Some(x) = before.diff(after, &[p.wmint, p.backptr]) {
        return viol("side-effect", x);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CreateCase {
    pub mint: AnyMint,
    pub t22: bool,
    pub idempotent: bool,
    pub extra: [u32; 2],
    pub deployment: u8,
    pub use_it: u64,
}
pub struct C07;
pub struct C21;

fn create_case() -> BoxedStrategy<CreateCase> {
    (any_mint(), prop::bool::weighted(0.7), any::<bool>(), [prop_oneof![Just(0u32), any::<u32>()], prop_oneof![Just(0u32), any::<u32>()]], 0u8..2, 1u64..1_000_000)
        .prop_map(|(mint, t22, idempotent, extra, deployment, use_it)| CreateCase { mint, t22, idempotent, extra, deployment, use_it })
        .boxed()
}
fn run_create(vm: &mut Vm, d: Deployment, c: &CreateCase, st: &mut Stats) -> Result<(World, Pair), Violation> {
    let mut w = World::default();
    let umint = put_any_mint(&mut w, vm, &c.mint);
    let p = Pair::new(umint, c.mint.cfg.prog(), if c.t22 { T22 } else { SPL });
    let space = if c.t22 { tlv_space(&expected_tlv(d, &p)) } else { 82 };
    w.fund(p.wmint, vm.rent(space) + c.extra[0] as u64);
    w.fund(p.backptr, vm.rent(32) + c.extra[1] as u64);
    let before = w.clone();
    let r = w.exec(vm, &ix_create_mint(&p, c.idempotent));
    st.hit(format!("{} -> {}", if c.mint.cfg.t22 { "Token-2022" } else { "SPL Token" }, if c.t22 { "Token-2022" } else { "SPL Token" }));
    if let Err(e) = r {
        return viol("refused", format!("creation refused: {e:?}: {}", tail_logs(vm)));
    }
    check_created(d, &before, &w, &p)?;
    Ok((w, p))
}
pub fn tlv_space(t: &[(u16, Vec<u8>)]) -> usize {
    if t.is_empty() {
        return 82;
    }
    let s = 166 + t.iter().map(|x| 4 + x.1.len()).sum::<usize>();
    if s == 355 {
        s + 2
    } else {
        s
    }
}

impl Prop for C07 {
    type Case = CreateCase;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "every case: a wrapped mint and backpointer were created and compared field by field; cases with an extension, freeze authority, supply or extra funding count"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the rent minimum of the expected account size is what a caller is asked to pre-fund"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 1_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CreateCase> {
        create_case()
    }
    fn run(&self, vms: &mut [Vm], c: &CreateCase, st: &mut Stats) -> Result<(), Violation> {
        run_create(&mut vms[0], Deployment::Main, c, st)?;
        st.nontrivial = c.mint.cfg.ext != 0 || c.mint.freeze.is_some() || c.mint.cfg.freeze || c.mint.supply != 0 || c.extra != [0, 0];
        Ok(())
    }
}

impl Prop for C21 {
    type Case = CreateCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "a mint was created by a fork deployment and compared, and a wrap and unwrap through it were compared with the token programs"
    }
    fn deployments(&self) -> Vec<Deployment> {
        vec![Deployment::Compliance, Deployment::NoExt]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 12_000 } else { 400_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CreateCase> {
        create_case()
    }
    fn run(&self, vms: &mut [Vm], c: &CreateCase, st: &mut Stats) -> Result<(), Violation> {
        let i = c.deployment as usize % 2;
        let d = [Deployment::Compliance, Deployment::NoExt][i];
        let vm = &mut vms[i];
        st.hit(format!("{d:?}"));
        let (w, p) = run_create(vm, d, c, st)?;
        // use it: wrap and unwrap on a lab around this pair
        if c.mint.cfg.native || c.mint.cfg.ext & (xb::HOOK | xb::DEFAULT_FROZEN | xb::NON_TRANSFERABLE) != 0 {
            return Ok(());
        }
        let mut w = w;
        let ud = &mut w.a.get_mut(&p.umint).unwrap().data;
        ud[36..44].copy_from_slice(&0u64.to_le_bytes());
        ud[0] = 1;
        ud[4..36].copy_from_slice(mint_authority_key().as_ref());
        if create_ata(&mut w, vm, p.wauth, p.umint, p.uprog).is_err() {
            abort("escrow".into());
        }
        let wtypes = spl_types(d, c.t22);
        let mut l = Lab { w, toks: vec![], pairs: vec![], m: 1, members: vec![key("member", 0)], slack: vec![0] };
        for (i, (m, prog, types)) in [(p.umint, p.uprog, c.mint.cfg.types()), (p.wmint, p.wprog, wtypes)].into_iter().enumerate() {
            create_account(&mut l.w, vm, holder_acct(i, 0), m, prog, &types, user(0), &[], AcctOpts::default());
            l.toks.push(Tok { mint: m, prog, types, cfg: None, decimals: c.mint.cfg.decimals, hook_extras: vec![] });
        }
        l.pairs.push(LPair { p: p.clone(), u: 0, w: 1, level: 0 });
        let ix = ix_mint_to(p.uprog, p.umint, holder_acct(0, 0), mint_authority_key(), c.use_it * 2);
        l.w.must(vm, &ix);
        let o = l.wrap(vm, 0, holder_acct(0, 0), holder_acct(1, 0), rs(user(0)), &[], &[], c.use_it);
        if o.verdict != Verdict::BothOk {
            return viol("wrap", format!("wrapping {} on a {d:?} mint: {:?}", c.use_it, o.verdict));
        }
        let got = l.w.amount(&holder_acct(1, 0));
        let o = l.unwrap(vm, 0, holder_acct(1, 0), holder_acct(0, 0), rs(user(0)), &[], &[], got);
        if o.verdict != Verdict::BothOk && got > 0 {
            return viol("unwrap", format!("unwrapping {got} on a {d:?} mint: {:?}", o.verdict));
        }
        st.hit("wrapped and unwrapped through it");
        st.nontrivial = got > 0;
        Ok(())
    }
}
pub fn spl_types(d: Deployment, t22: bool) -> Vec<spl_token_2022_interface::extension::ExtensionType> {
    use spl_token_2022_interface::extension::ExtensionType as X;
    match (d, t22) {
        (_, false) => vec![],
        (Deployment::Main, _) => vec![X::ConfidentialTransferMint, X::MetadataPointer],
        (Deployment::Compliance, _) => vec![X::PermanentDelegate, X::ConfidentialTransferMint, X::DefaultAccountState, X::Pausable],
        (Deployment::NoExt, _) => vec![],
    }
}

// ---- C08 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Once {
    /// funding relative to the two minimums
    Funding { mint: AnyMint, t22: bool, idempotent: bool, dm: i64, db: i64 },
    /// a history, then creation again, several times
    Again { lab: LabCase, pair: u8, flags: Vec<bool> },
    /// something that is no initialized mint
    NotAMint { shape: u8, t22src: bool, t22: bool, idempotent: bool, owner: u8, junk: Vec<u8> },
    /// unsupported wrapped token program
    BadProgram { mint: AnyMint, prog: u8, idempotent: bool },
    /// accounts in states no history of this deployment leads to: one of the two made, or owned by another program
    Odd { mint: AnyMint, t22: bool, wm: u8, bp: u8, idempotent: bool },
    /// an address that is not the derived one
    BadAddress { mint: AnyMint, t22: bool, subs: Vec<(u8, u8)>, made: u8, idempotent: bool },
}
pub struct C08;
/// Replaced accounts; often both derived ones by those of the same other pair.
fn subs() -> BoxedStrategy<Vec<(u8, u8)>> {
    prop_oneof![
        2 => (0u8..3, 0u8..6).prop_map(|x| vec![x]),
        2 => (0u8..2).prop_map(|o| vec![(0, o), (1, o)]),
        1 => vec((0u8..3, 0u8..6), 1..4),
    ]
    .boxed()
}
impl Prop for C08 {
    type Case = Once;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "creation was attempted in a generated situation and the result and every account compared with the rule for that situation"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 16_000 } else { 500_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Once> {
        let delta = || prop_oneof![3 => Just(0i64), 2 => Just(-1), 1 => Just(1), 2 => -2_000_000i64..0, 1 => 0i64..1_000_000, 1 => Just(-10_000_000)];
        let n = if t == Tier::Quick { 16 } else { 40 };
        prop_oneof![
            4 => (any_mint(), any::<bool>(), any::<bool>(), delta(), delta()).prop_map(|(mint, t22, idempotent, dm, db)| Once::Funding { mint, t22, idempotent, dm, db }),
            3 => (lab_case(Focus::History, n), any::<u8>(), vec(any::<bool>(), 1..4)).prop_map(|(lab, pair, flags)| Once::Again { lab, pair, flags }),
            4 => (0u8..12, any::<bool>(), any::<bool>(), any::<bool>(), 0u8..5, vec(any::<u8>(), 0..400)).prop_map(|(shape, t22src, t22, idempotent, owner, junk)| Once::NotAMint { shape, t22src, t22, idempotent, owner, junk }),
            2 => (any_mint(), 0u8..7, any::<bool>()).prop_map(|(mint, prog, idempotent)| Once::BadProgram { mint, prog, idempotent }),
            2 => (any_mint(), any::<bool>(), 0u8..8, 0u8..8, prop::bool::weighted(0.7)).prop_map(|(mint, t22, wm, bp, idempotent)| Once::Odd { mint, t22, wm, bp, idempotent }),
            5 => (any_mint(), any::<bool>(), subs(), 0u8..4, any::<bool>()).prop_map(|(mint, t22, subs, made, idempotent)| Once::BadAddress { mint, t22, subs, made, idempotent }),
        ]
        .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &Once, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        st.nontrivial = true;
        let refuse = |vm: &mut Vm, w: &mut World, ix: &solana_instruction::Instruction, what: &str| -> Result<(), Violation> {
            let before = w.clone();
            match w.exec(vm, ix) {
                Ok(()) => viol("accepted", format!("creation accepted: {what}; {}", before.diff(w, &[]).unwrap_or_else(|| "nothing changed".into()))),
                Err(_) => match before.diff(w, &[]) {
                    Some(d) => viol("refused-but-changed", format!("{what}: {d}")),
                    None => Ok(()),
                },
            }
        };
        match c {
            Once::Funding { mint, t22, idempotent, dm, db } => {
                let mut w = World::default();
                let umint = put_any_mint(&mut w, vm, mint);
                let p = Pair::new(umint, mint.cfg.prog(), if *t22 { T22 } else { SPL });
                let space = if *t22 { tlv_space(&expected_tlv(Deployment::Main, &p)) } else { 82 };
                let lm = (vm.rent(space) as i64 + dm).max(0) as u64;
                let lb = (vm.rent(32) as i64 + db).max(0) as u64;
                if lm > 0 {
                    w.fund(p.wmint, lm);
                }
                if lb > 0 {
                    w.fund(p.backptr, lb);
                }
                let before = w.clone();
                let ix = ix_create_mint(&p, *idempotent);
                if *dm >= 0 && *db >= 0 {
                    st.hit("funding sufficient");
                    if let Err(e) = w.exec(vm, &ix) {
                        return viol("refused", format!("creation with sufficient funding refused: {e:?}: {}", tail_logs(vm)));
                    }
                    check_created(Deployment::Main, &before, &w, &p)?;
                    // and again, both ways
                    let snap = w.clone();
                    if w.exec(vm, &ix_create_mint(&p, true)).is_err() || snap != w {
                        return viol("idempotent", "a second, idempotent creation failed or changed something");
                    }
                    refuse(vm, &mut w, &ix_create_mint(&p, false), "a second time without the idempotent flag")
                } else {
                    st.hit("funding insufficient");
                    refuse(vm, &mut w, &ix, &format!("with funding {dm} / {db} relative to the minimums"))
                }
            }
            Once::Again { lab, pair, flags } => {
                let mut l = Lab::new(vm, &lab.spec);
                for (i, op) in lab.ops.iter().enumerate() {
                    run_op(&mut l, vm, op, i, st);
                }
                let p = l.pairs[l.pi(*pair)].p.clone();
                for f in flags {
                    st.hit(format!("again, idempotent {f}"));
                    let before = l.w.clone();
                    let r = l.w.exec(vm, &ix_create_mint(&p, *f));
                    if r.is_ok() != *f {
                        return viol("again", format!("creating an existing mint with idempotent {f} gave {r:?}"));
                    }
                    if let Some(d) = before.diff(&l.w, &[]) {
                        return viol("overwritten", format!("creating an existing mint with idempotent {f} changed {d}"));
                    }
                }
                Ok(())
            }
            Once::NotAMint { shape, t22src, t22, idempotent, owner, junk } => {
                let mut w = World::default();
                let src = key("not-a-mint", 0);
                let prog = if *t22src { T22 } else { SPL };
                let good = MintCfg { t22: *t22src, native: false, decimals: 6, freeze: true, ext: 0, fees: vec![] };
                let ext = MintCfg { ext: xb::META_POINTER | xb::CLOSE, ..good.clone() }.norm();
                let names = ["absent", "empty system account", "token account", "multisig", "uninitialized", "truncated", "mint bytes of another owner", "initialized flag cleared", "junk owned by the token program", "wrong account type", "token account with extensions", "mint plus one byte"];
                match shape {
                    0 => {}
                    1 => w.fund(src, 5_000_000),
                    2 => {
                        let m = key("other-mint", 0);
                        create_mint(&mut w, vm, m, &good, None);
                        create_account(&mut w, vm, src, m, prog, &[], user(0), &[], AcctOpts::default());
                    }
                    3 => create_multisig(&mut w, vm, src, prog, &[user(0), user(1)], 1),
                    4 => w.put(src, prog, vm.rent(82), vec![0; 82]),
                    5 => {
                        create_mint(&mut w, vm, src, &good, None);
                        let d = &mut w.a.get_mut(&src).unwrap().data;
                        d.truncate(81 - junk.len() % 40);
                    }
                    6 => {
                        create_mint(&mut w, vm, src, &good, None);
                        w.a.get_mut(&src).unwrap().owner = [SYS, MPL, TW, MOCK_META, key("attacker-program", 0)][*owner as usize % 5];
                    }
                    7 => {
                        create_mint(&mut w, vm, src, &good, None);
                        w.a.get_mut(&src).unwrap().data[45] = 0;
                    }
                    8 => {
                        let mut j = junk.clone();
                        if tok::mint(&j).is_some() || j.len() < 46 {
                            j = vec![7; 50];
                        }
                        if j.len() > 45 {
                            j[45] = 0;
                        }
                        w.put(src, prog, vm.rent(j.len()), j)
                    }
                    9 => {
                        create_mint(&mut w, vm, src, &ext, None);
                        let d = &mut w.a.get_mut(&src).unwrap().data;
                        if d.len() > 165 {
                            d[165] = 2;
                        } else {
                            d[45] = 0;
                        }
                    }
                    10 => {
                        let m = key("other-mint", 0);
                        create_mint(&mut w, vm, m, &good, None);
                        create_account(&mut w, vm, src, m, prog, &[], user(0), &[], AcctOpts { immutable: *t22src, memo: *t22src, guard: false });
                    }
                    _ => {
                        create_mint(&mut w, vm, src, &good, None);
                        w.a.get_mut(&src).unwrap().data.extend_from_slice(&[1, 0, 0]);
                    }
                }
                st.hit(format!("not a mint: {}", names[*shape as usize % 12]));
                let p = Pair::new(src, prog, if *t22 { T22 } else { SPL });
                w.fund(p.wmint, vm.rent(400));
                w.fund(p.backptr, vm.rent(32));
                refuse(vm, &mut w, &ix_create_mint(&p, *idempotent), &format!("for a source that is not an initialized mint ({})", names[*shape as usize % 12]))
            }
            Once::BadProgram { mint, prog, idempotent } => {
                let mut w = World::default();
                let umint = put_any_mint(&mut w, vm, mint);
                let wp = [SYS, ATA, MPL, TW, MOCK_META, key("no-program", 0), umint][*prog as usize % 7];
                let p = Pair::new(umint, mint.cfg.prog(), wp);
                w.fund(p.wmint, vm.rent(400));
                w.fund(p.backptr, vm.rent(32));
                st.hit("unsupported wrapped program");
                refuse(vm, &mut w, &ix_create_mint(&p, *idempotent), &format!("for wrapped token program {wp}"))
            }
            Once::Odd { mint, t22, wm, bp, idempotent } => {
                let mut w = World::default();
                let umint = put_any_mint(&mut w, vm, mint);
                let p = Pair::new(umint, mint.cfg.prog(), if *t22 { T22 } else { SPL });
                create_pair(&mut w, vm, &p);
                for (k, how, other) in [(p.wmint, *wm, p.wprog), (p.backptr, *bp, TW)] {
                    let a = w.a.get_mut(&k).unwrap();
                    match how {
                        0..=2 => {}
                        3 => {
                            a.owner = SYS;
                            a.data.clear();
                        }
                        4 => a.owner = if other == TW { key("other-deployment", 0) } else if other == T22 { SPL } else { T22 },
                        5 => a.owner = SYS,
                        6 => a.owner = [umint, MPL, ATA][a.data.len() % 3],
                        _ => a.data.iter_mut().for_each(|b| *b = 0),
                    }
                }
                let at = |k: &Pubkey| (w.a[k].owner, !w.a[k].data.is_empty());
                let (m, b) = (at(&p.wmint), at(&p.backptr));
                if !m.1 && !b.1 {
                    st.nontrivial = false;
                    return Ok(());
                }
                let ix = ix_create_mint(&p, *idempotent);
                let right = (m.0 == p.wprog, b.0 == TW);
                st.hit(format!("odd state: mint owner right {}, backpointer owner right {}", right.0, right.1));
                if *idempotent && right == (true, true) {
                    let before = w.clone();
                    let r = w.exec(vm, &ix);
                    return match before.diff(&w, &[]) {
                        Some(d) => viol("overwritten", format!("creating an existing mint changed {d}")),
                        None if r.is_err() => viol("again", format!("creating an existing mint with the idempotent flag gave {r:?}")),
                        None => Ok(()),
                    };
                }
                let what = format!("with mint {} of {} and backpointer {} of {}", if m.1 { "data" } else { "empty" }, m.0, if b.1 { "data" } else { "empty" }, b.0);
                refuse(vm, &mut w, &ix, &what)
            }
            Once::BadAddress { mint, t22, subs, made, idempotent } => {
                let mut w = World::default();
                let umint = put_any_mint(&mut w, vm, mint);
                let wp = if *t22 { T22 } else { SPL };
                let p = Pair::new(umint, mint.cfg.prog(), wp);
                // an existing pair for another mint
                let m2 = key("second", 0);
                create_mint(&mut w, vm, m2, &MintCfg { t22: false, native: false, decimals: 3, freeze: false, ext: 0, fees: vec![] }, None);
                let q = Pair::new(m2, SPL, wp);
                create_pair(&mut w, vm, &q);
                w.fund(p.wmint, vm.rent(400));
                w.fund(p.backptr, vm.rent(32));
                let flip = Pair::new(umint, mint.cfg.prog(), if *t22 { SPL } else { T22 });
                w.fund(flip.wmint, vm.rent(400));
                w.fund(flip.backptr, vm.rent(32));
                for (bit, x) in [(1, &p), (2, &flip)] {
                    if made & bit != 0 {
                        w.must(vm, &ix_create_mint(x, false));
                    }
                }
                let free = key("free", 0);
                w.fund(free, vm.rent(400));
                let mut ix = ix_create_mint(&p, *idempotent);
                for (pos, other) in subs {
                    let pos = *pos as usize % 3;
                    ix.accounts[pos].pubkey = match pos {
                        0 => [q.wmint, flip.wmint, free, p.backptr, p.wauth, umint],
                        1 => [q.backptr, flip.backptr, free, p.wmint, p.wauth, canonical_pointer(&umint)],
                        _ => [m2, q.wmint, free, p.wmint, p.wauth, p.backptr],
                    }[*other as usize % 6];
                }
                let a = &ix.accounts;
                let said = wrapped_mint(&a[2].pubkey, &wp);
                if a[0].pubkey == said && a[1].pubkey == backpointer(&said) {
                    st.nontrivial = false;
                    return Ok(()); // replaced by another right one
                }
                st.hit(format!("wrong address{}", if subs.len() > 1 { "es" } else { "" }));
                refuse(vm, &mut w, &ix, &format!("with accounts replaced {subs:?}"))
            }
        }
    }
}
