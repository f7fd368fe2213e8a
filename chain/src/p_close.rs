//! C09: only an empty, mismatched escrow can be closed, and it recovers.
use {
    crate::{engine::*, lab::*, p_create::*, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_pubkey::Pubkey,
    spl_token_2022_interface::instruction as ti,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// wrap then unwrap everything
    Cycle(u64),
    /// mint straight to the escrow (it then holds a balance)
    Feed(u64),
    /// wrap and keep
    Hold(u64),
    Freeze,
    Thaw,
    Dust(u32),
    Close { dest: u8 },
    Recreate,
    /// close the mint and put another one at its address
    NewMint(MintCfg),
    /// close the mint for good
    DropMint,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CloseCase {
    pub first: MintCfg,
    pub t22: bool,
    pub acts: Vec<Act>,
}
pub struct C09;

pub fn cfg09() -> BoxedStrategy<MintCfg> {
    let account_exts = [xb::FEE, xb::HOOK, xb::PAUSABLE, xb::NON_TRANSFERABLE, xb::HOOK_NONE];
    let bits = prop_oneof![
        3 => (0u32..32).prop_map(move |m| (0..5).filter(|i| m & (1 << i) != 0).map(|i| account_exts[i]).fold(0, |a, b| a | b)),
        2 => (0usize..5).prop_map(move |i| account_exts[i]),
        1 => Just(0u32),
        2 => any::<u32>().prop_map(|x| x & 0xffff),
        1 => (0usize..16).prop_map(|i| xb::ALL[i]),
    ];
    (bits, any::<bool>(), 0u8..10, fee())
        .prop_map(|(ext, freeze, decimals, f)| {
            // permanent delegates stay in: nobody uses one here
            MintCfg { t22: true, native: false, decimals, freeze, ext: ext | xb::CLOSE, fees: vec![(0, f)] }.norm()
        })
        .boxed()
}

/// Account extensions Token-2022 puts on a fresh associated token account of a
/// mint with these extensions.
pub fn required(mint_data: &[u8]) -> Vec<u16> {
    let mut v = vec![7];
    for (t, _) in tok::tlv(mint_data) {
        match t {
            1 => v.push(2),
            9 => v.push(13),
            14 => v.push(15),
            26 => v.push(27),
            _ => {}
        }
    }
    v.sort();
    v
}

impl Prop for C09 {
    type Case = CloseCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "a close was attempted on an escrow whose mint had been replaced, or whose balance or state forbids it"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["an escrow Token-2022 itself refuses to close (withheld fees) counts as not closable"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 14_000 } else { 500_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CloseCase> {
        let act = prop_oneof![
            3 => (1u64..10_000).prop_map(Act::Cycle),
            2 => prop_oneof![Just(1u64), 1u64..1000].prop_map(Act::Feed),
            1 => (1u64..1000).prop_map(Act::Hold),
            1 => Just(Act::Freeze),
            1 => Just(Act::Thaw),
            1 => any::<u32>().prop_map(Act::Dust),
            7 => prop_oneof![3 => 0u8..6, 2 => 6u8..12].prop_map(|dest| Act::Close { dest }),
            3 => Just(Act::Recreate),
            6 => cfg09().prop_map(Act::NewMint),
            1 => Just(Act::DropMint),
        ];
        (cfg09(), any::<bool>(), vec(act, 1..14)).prop_map(|(first, t22, acts)| CloseCase { first, t22, acts }).boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &CloseCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let umint = key("recreated", 0);
        let p = Pair::new(umint, T22, if c.t22 { T22 } else { SPL });
        let mut l = Lab { w: World::default(), toks: vec![], pairs: vec![], m: 1, members: vec![key("member", 0)], slack: vec![0] };
        l.w.fund(key("payer", 0), 1_000_000_000);
        put_mint(&mut l.w, vm, umint, &c.first);
        let space = if c.t22 { 400 } else { 82 };
        l.w.fund(p.wmint, vm.rent(space));
        l.w.fund(p.backptr, vm.rent(32));
        l.w.must(vm, &ix_create_mint(&p, false));
        let _ = create_ata(&mut l.w, vm, p.wauth, umint, T22);
        let wtypes = spl_types(Deployment::Main, c.t22);
        l.toks.push(Tok { mint: umint, prog: T22, types: c.first.types(), cfg: Some(c.first.clone()), decimals: c.first.decimals, hook_extras: vec![] });
        l.toks.push(Tok { mint: p.wmint, prog: p.wprog, types: wtypes.clone(), cfg: None, decimals: c.first.decimals, hook_extras: vec![] });
        l.pairs.push(LPair { p: p.clone(), u: 0, w: 1, level: 0 });
        create_account(&mut l.w, vm, holder_acct(1, 0), p.wmint, p.wprog, &wtypes, user(0), &[], AcctOpts::default());
        create_mint(&mut l.w, vm, key("spare-mint", 0), &MintCfg { t22: true, native: false, decimals: 2, freeze: false, ext: 0, fees: vec![] }, None);
        create_account(&mut l.w, vm, key("spare-account", 0), key("spare-mint", 0), T22, &[], user(1), &[], AcctOpts::default());
        let mut generation = 0u64;
        for (step, a) in c.acts.iter().enumerate() {
            match a {
                Act::Close { dest } => {
                    // the unwrapped mint itself is left out: it is read-only in this instruction
                    let dests = [
                        key("destination", 0), key("payer", 0), p.wauth, user(0), p.backptr, p.escrow,
                        // any account can take lamports: token accounts of either program, mints, programs' own accounts
                        holder_acct(1, 0), key("holder", generation), p.wmint, key("spare-mint", 0), key("spare-account", 0), mint_authority_key(),
                    ];
                    let dest = dests[*dest as usize % dests.len()];
                    try_close(&mut l, vm, &p, dest, step, st)?;
                }
                Act::Dust(n) => {
                    if l.w.a.contains_key(&p.escrow) {
                        l.w.fund(p.escrow, *n as u64);
                    }
                }
                Act::Freeze | Act::Thaw => {
                    let _ = l.w.exec(vm, &ix_freeze(T22, p.escrow, umint, matches!(a, Act::Freeze)));
                }
                Act::Feed(n) => {
                    let _ = l.w.exec(vm, &ix_mint_to(T22, umint, p.escrow, mint_authority_key(), *n));
                }
                Act::Recreate => recreate(&mut l, vm, &p, st)?,
                Act::Cycle(n) | Act::Hold(n) => cycle(&mut l, vm, &p, *n, matches!(a, Act::Cycle(_)), generation, step, false, st)?,
                Act::DropMint => {
                    clear_supply(&mut l, vm, umint);
                    let ix = ti::close_account(&T22, &umint, &key("payer", 0), &admin_key(), &[]).unwrap();
                    let _ = l.w.exec(vm, &ix);
                }
                Act::NewMint(cfg) => {
                    clear_supply(&mut l, vm, umint);
                    let ix = ti::close_account(&T22, &umint, &key("payer", 0), &admin_key(), &[]).unwrap();
                    if l.w.a.contains_key(&umint) && l.w.exec(vm, &ix).is_err() {
                        continue;
                    }
                    generation += 1;
                    put_mint(&mut l.w, vm, umint, cfg);
                    l.toks[0] = Tok { mint: umint, prog: T22, types: cfg.types(), cfg: Some(cfg.clone()), decimals: cfg.decimals, hook_extras: vec![] };
                    st.hit("mint replaced");
                }
            }
        }
        // whatever happened, an escrow that is stuck and empty can be brought back
        let dest = key("destination", 0);
        if l.w.a.contains_key(&umint) {
            if try_close(&mut l, vm, &p, dest, 99, st)? {
                recreate(&mut l, vm, &p, st)?;
                let e = l.w.data(&p.escrow).to_vec();
                let mut have: Vec<u16> = tok::tlv(&e).iter().map(|x| x.0).collect();
                have.sort();
                if have != required(l.w.data(&umint)) {
                    return viol("recreated-extensions", format!("recreated escrow has {have:?}"));
                }
                cycle(&mut l, vm, &p, 5_000, true, generation, 100, true, st)?;
                st.hit("recovered and used");
            }
        }
        Ok(())
    }
}

fn put_mint(w: &mut World, vm: &mut Vm, k: Pubkey, cfg: &MintCfg) {
    create_mint(w, vm, k, cfg, None);
    if cfg.ext & xb::HOOK != 0 {
        setup_hook(w, vm, &k, &[]);
    }
}
/// Burning what the holders and the mint account still have, so the mint can be closed.
fn clear_supply(l: &mut Lab, vm: &mut Vm, umint: Pubkey) {
    let ks: Vec<Pubkey> = l.w.a.iter().filter(|(_, a)| a.owner == T22 && tok::acct(&a.data).map(|t| t.mint == umint && t.owner == user(0)).unwrap_or(false)).map(|(k, _)| *k).collect();
    for k in ks {
        let n = l.w.amount(&k);
        let _ = l.w.exec(vm, &ix_burn(T22, umint, k, rs(user(0)), &[], n));
    }
}

fn recreate(l: &mut Lab, vm: &mut Vm, p: &Pair, st: &mut Stats) -> Result<(), Violation> {
    if !l.w.a.contains_key(&p.escrow) && l.w.mint(&p.umint).is_some() {
        if let Err(e) = create_ata(&mut l.w, vm, p.wauth, p.umint, p.uprog) {
            abort(format!("escrow: {e:?}"));
        }
        st.hit("escrow recreated");
    }
    Ok(())
}

/// Closing follows exactly the rule; returns whether it was closed.
fn try_close(l: &mut Lab, vm: &mut Vm, p: &Pair, dest: Pubkey, step: usize, st: &mut Stats) -> Result<bool, Violation> {
    let e = l.w.data(&p.escrow).to_vec();
    let mint_ok = l.w.a.get(&p.umint).map(|a| a.owner == T22 && tok::mint(&a.data).is_some()).unwrap_or(false);
    let mut refw = l.w.clone();
    let rule = (|| -> Result<(), String> {
        let Some(a) = tok::acct(&e) else { return Err("there is no escrow".into()) };
        if !mint_ok {
            return Err("there is no unwrapped mint".into());
        }
        if a.amount != 0 {
            return Err(format!("it holds {}", a.amount));
        }
        if a.state != 1 {
            return Err("it is not in the initialized state".into());
        }
        let mut have: Vec<u16> = tok::tlv(&e).iter().map(|x| x.0).collect();
        have.sort();
        if have == required(l.w.data(&p.umint)) {
            return Err("its extensions are those the mint requires".into());
        }
        let mut ix = ti::close_account(&T22, &p.escrow, &dest, &p.wauth, &[]).unwrap();
        ix.accounts[2].is_signer = true;
        refw.exec(vm, &ix).map_err(|e| format!("Token-2022 refuses: {e:?}"))
    })();
    let before = l.w.clone();
    let got = l.w.exec(vm, &ix_close_stuck(p, dest));
    st.nontrivial |= rule.is_ok() || rule.as_ref().err().map(|s| s.starts_with("it ")).unwrap_or(false);
    match (got, rule) {
        (Err(_), Err(why)) => {
            st.hit(format!("close refused: {}", if why.starts_with("it holds") { "it holds tokens" } else { &why }));
            match before.diff(&l.w, &[]) {
                Some(d) => viol("refused-but-changed", format!("step {step}: {d}")),
                None => Ok(false),
            }
        }
        (Ok(()), Err(why)) => viol("closed-wrongly", format!("step {step}: the escrow was closed although {why}")),
        (Err(e), Ok(())) => viol("not-closed", format!("step {step}: closing an empty, mismatched escrow refused: {e:?}: {}", tail_logs(vm))),
        (Ok(()), Ok(())) => {
            st.hit("stuck escrow closed");
            if l.w.a.contains_key(&p.escrow) {
                return viol("still-there", "the escrow still exists after closing");
            }
            match refw.diff(&l.w, &[]) {
                Some(d) => viol("close-differs", format!("step {step}: Token-2022 close vs program: {d}")),
                None => Ok(true),
            }
        }
    }
}

/// A wrap and (maybe) an unwrap, compared with the token programs. After a
/// recovery (`must`), they have to work.
fn cycle(l: &mut Lab, vm: &mut Vm, p: &Pair, n: u64, back: bool, generation: u64, step: usize, must: bool, st: &mut Stats) -> Result<(), Violation> {
    if l.w.mint(&p.umint).is_none() {
        return Ok(());
    }
    let acct = key("holder", generation);
    let cfg = l.toks[0].cfg.clone().unwrap();
    if !l.w.a.contains_key(&acct) {
        let types = l.toks[0].types.clone();
        create_account(&mut l.w, vm, acct, p.umint, T22, &types, user(0), &[], AcctOpts { immutable: cfg.ext & xb::NON_TRANSFERABLE != 0 && false, ..AcctOpts::default() });
        if cfg.ext & xb::DEFAULT_FROZEN != 0 {
            let _ = l.w.exec(vm, &ix_freeze(T22, acct, p.umint, false));
        }
    }
    if must && cfg.ext & xb::DEFAULT_FROZEN != 0 {
        let _ = l.w.exec(vm, &ix_freeze(T22, p.escrow, p.umint, false));
    }
    if l.w.exec(vm, &ix_mint_to(T22, p.umint, acct, mint_authority_key(), n)).is_err() {
        return Ok(());
    }
    let tail = l.hook_tail(0);
    let o = l.wrap(vm, 0, acct, holder_acct(1, 0), rs(user(0)), &[], &tail, n);
    st.hit(format!("wrap {:?}", matches!(o.verdict, Verdict::BothOk)));
    match &o.verdict {
        Verdict::BothOk => {}
        Verdict::BothRefuse if !must || cfg.ext & xb::NON_TRANSFERABLE != 0 => return Ok(()),
        v => return viol("wrap", format!("step {step}: wrapping {n}: {v:?} ({:?})", o.err)),
    }
    let bal = l.w.amount(&holder_acct(1, 0));
    if back && bal > 0 {
        let o = l.unwrap(vm, 0, holder_acct(1, 0), acct, rs(user(0)), &[], &tail, bal);
        match &o.verdict {
            Verdict::BothOk => {}
            Verdict::BothRefuse if !must => {}
            v => return viol("unwrap", format!("step {step}: unwrapping {bal}: {v:?}")),
        }
    }
    Ok(())
}
