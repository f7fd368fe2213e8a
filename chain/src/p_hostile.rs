//! C06 (substituted accounts) and C18 (hostile instruction histories).
use {
    crate::{arena::*, engine::*, lab::tail_logs, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::{error::InstructionError, Instruction},
    solana_pubkey::Pubkey,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SubstCase {
    pub kind: Kind,
    pub pair: u8,
    pub who: u8,
    pub amount: u32,
    pub warm: Vec<(Kind, u8, u8)>,
    pub muts: Vec<Mutation>,
}
pub fn mutation() -> BoxedStrategy<Mutation> {
    let i = || any::<u8>();
    prop_oneof![
        8 => (i(), any::<u16>()).prop_map(|(a, b)| Mutation::Replace(a, b)),
        8 => (i(), i(), i()).prop_map(|(a, b, c)| Mutation::Role(a, b, c)),
        2 => (i(), i()).prop_map(|(a, b)| Mutation::Swap(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Mutation::Duplicate(a, b)),
        1 => i().prop_map(Mutation::Remove),
        1 => (i(), any::<u16>()).prop_map(|(a, b)| Mutation::Insert(a, b)),
        1 => i().prop_map(Mutation::Truncate),
        1 => i().prop_map(Mutation::Retag),
        1 => i().prop_map(Mutation::Unsign),
        1 => Just(Mutation::Own),
        3 => (i(), i(), prop_oneof![3 => Just(255u8), 1 => i()]).prop_map(|(a, b, c)| Mutation::Copied(a, b, c)),
    ]
    .boxed()
}
fn kind() -> BoxedStrategy<Kind> {
    prop::sample::select(KINDS.to_vec()).boxed()
}

/// The documented codes when exactly this position is wrong; none where the order of the checks
/// decides between a code and another error.
fn documented(vm: &Vm, a: &Arena, w: &World, good: &Instruction, pos: usize, new: &Pubkey) -> &'static [u32] {
    let owner = w.get(vm, new).owner;
    let umint = |i: usize| good.accounts[i].pubkey;
    // a token account, though not this escrow: owned by another, too
    let holds = w.acct(new).is_some();
    match (good.data[0], pos) {
        (0, 0) => &[0],
        (0, 1) => &[1],
        (1, 1) => &[0],
        (1, 2) => &[3],
        (1, 7) if holds => &[7, 4],
        (2, 7) => &[0],
        (2, 2) => &[3],
        (2, 0) => &[7],
        (3, 3) if !a.pairs.iter().any(|p| p.umint == umint(2) && p.wmint == *new) => &[0],
        (3, 4) => &[3],
        (3, 0) if owner == T22 && holds => &[7, 4],
        (4, 0) if owner == T22 => &[0],
        (4, 1) => &[3],
        (5, 2) if owner == SPL => &[0],
        (5, 1) => &[3],
        (5, 0) => &[10],
        _ => &[],
    }
}

pub struct C06;
impl Prop for C06 {
    type Case = SubstCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "the genuine instruction succeeds in that state, and the accounts given do not all play the role of their position for any pair"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["accounts no role depends on (system program, rent sysvar, surplus accounts) may be anything as long as the outcome is the genuine one"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 4_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<SubstCase> {
        (kind(), any::<u8>(), 0u8..2, 1u32..50_000, vec((kind(), any::<u8>(), 0u8..2), 0..3), prop_oneof![5 => vec(mutation(), 1), 3 => vec(mutation(), 2..4), 1 => vec(mutation(), 4..8)])
            .prop_map(|(kind, pair, who, amount, warm, muts)| SubstCase { kind, pair, who, amount, warm, muts })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &SubstCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let a = arena(vm);
        let mut w = a.w.clone();
        for (k, p, who) in &c.warm {
            if *k != Kind::Create && *k != Kind::Close {
                let ix = genuine(&a, *k, *p as usize, *who as usize, 1_000);
                let _ = w.exec(vm, &ix);
            }
        }
        let good = genuine(&a, c.kind, c.pair as usize, c.who as usize, c.amount as u64);
        let mut bad = good.clone();
        for m in &c.muts {
            mutate(&a, &mut bad, m);
        }
        if bad == good {
            return Ok(());
        }
        let mut best = w.clone();
        if let Err(e) = best.exec(vm, &good) {
            impossible(format!("the genuine {:?} is refused: {e:?} {}", c.kind, tail_logs(vm)));
        }
        if is_genuine(vm, &w, &bad) {
            st.hit(format!("{:?}: still genuine", c.kind));
            return Ok(());
        }
        st.nontrivial = true;
        let before = w.clone();
        match w.exec(vm, &bad) {
            Err(e) => {
                st.hit(format!("{:?}: refused", c.kind));
                if let Some(d) = before.diff(&w, &[]) {
                    return viol("refused-but-changed", d);
                }
                let changed: Vec<usize> = (0..good.accounts.len()).filter(|i| bad.accounts.get(*i) != good.accounts.get(*i)).collect();
                if bad.data == good.data && bad.accounts.len() == good.accounts.len() && changed.len() == 1 {
                    let i = changed[0];
                    if bad.accounts[i].pubkey != good.accounts[i].pubkey {
                        let codes = documented(vm, &a, &before, &good, i, &bad.accounts[i].pubkey);
                        if !codes.is_empty() {
                            st.hit(format!("{:?}: account {i} alone wrong, code {codes:?}", c.kind));
                            if !codes.iter().any(|k| e == InstructionError::Custom(*k)) {
                                return viol("error-code", format!("{:?} with only account {i} wrong ({}): {e:?}, documented code is {codes:?}", c.kind, bad.accounts[i].pubkey));
                            }
                        }
                    }
                }
            }
            Ok(()) => {
                st.hit(format!("{:?}: accepted like the genuine one", c.kind));
                // the same with the right programs in their places may itself be a genuine instruction
                let mut fixed = bad.clone();
                let places: &[(usize, Pubkey)] = match bad.data.first() {
                    Some(0) | Some(6) => &[(3, SYS)],
                    Some(3) => &[(5, T22)],
                    Some(4) => &[(3, T22)],
                    Some(5) => &[(4, MPL), (5, SYS), (6, RENT)],
                    _ => &[],
                };
                for (i, k) in places {
                    if let Some(m) = fixed.accounts.get_mut(*i) {
                        m.pubkey = *k;
                    }
                }
                if is_genuine(vm, &before, &fixed) {
                    let mut x = before.clone();
                    if x.exec(vm, &fixed).is_ok() {
                        best = x;
                    }
                }
                if let Some(d) = best.diff(&w, &[]) {
                    let ch: Vec<String> = (0..bad.accounts.len().max(good.accounts.len()))
                        .filter(|i| bad.accounts.get(*i) != good.accounts.get(*i))
                        .map(|i| format!("{i}: {:?} -> {:?}", good.accounts.get(i).map(|m| m.pubkey), bad.accounts.get(i).map(|m| m.pubkey)))
                        .collect();
                    // nothing at all happened: fine too
                    if before.diff(&w, &[]).is_some() {
                        return viol("accepted", format!("{:?} accepted with {ch:?}: {d}", c.kind));
                    }
                }
            }
        }
        Ok(())
    }
}

// ---- C18 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    pub kind: Kind,
    pub pair: u8,
    pub amount: u64,
    pub muts: Vec<Mutation>,
    /// positions that claim a signature by the mint authority's key are allowed to
    pub mint_authority: bool,
    /// none: derived from a genuine instruction; some: arbitrary accounts (pool index, flags)
    pub free: Option<Vec<(u16, u8)>>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileCase {
    pub attacks: Vec<Attack>,
}
pub struct C18;

fn attackers() -> [Pubkey; 2] {
    [mallory(), key("mallory", 1)]
}

impl Prop for C18 {
    type Case = HostileCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "at least one mutated or arbitrary instruction was accepted or failed inside the program after its first checks (some logs of a CPI), and none broke an invariant"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the attacker signs with its own keys (and, in some steps, as a mint's authority, which does not mint here); the victim signs nothing"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 1_000_000 }
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<HostileCase> {
        let n = if t == Tier::Quick { 12 } else { 30 };
        let i = || any::<u8>();
        let m = prop_oneof![
            8 => mutation(),
            2 => i().prop_map(Mutation::Readonly),
            2 => i().prop_map(Mutation::Writable),
            2 => (i(), i()).prop_map(|(a, b)| Mutation::SignAs(a, b)),
            1 => prop_oneof![any::<u64>(), Just(u64::MAX), Just(0)].prop_map(Mutation::Amount),
            1 => vec(any::<u8>(), 0..40).prop_map(Mutation::Data),
        ];
        let amount = prop_oneof![4 => 1u64..100_000, 1 => any::<u64>(), 1 => Just(u64::MAX)];
        let free = vec((any::<u16>(), any::<u8>()), 0..14);
        let attack = (kind(), any::<u8>(), amount, prop_oneof![2 => Just(vec![]), 5 => vec(m.clone(), 1..3), 2 => vec(m, 3..7)], prop::bool::weighted(0.2), prop::option::weighted(0.12, free))
            .prop_map(|(kind, pair, amount, muts, mint_authority, free)| Attack { kind, pair, amount, muts, mint_authority, free });
        vec(attack, 1..n).prop_map(|attacks| HostileCase { attacks }).boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &HostileCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let a = arena(vm);
        let mut w = a.w.clone();
        let lam0 = total_lamports(&w);
        let wealth = |w: &World| -> Vec<u128> {
            // per unwrapped mint: what the attacker holds of it, unwrapped and wrapped
            a.mints
                .iter()
                .enumerate()
                .map(|(i, m)| {
                    attackers().iter().chain([key("mallory-multisig", 0), key("mallory-multisig", 1)].iter()).map(|k| {
                        held(w, &m.k, k) + held(w, &a.pairs[2 * i].wmint, k) + held(w, &a.pairs[2 * i + 1].wmint, k)
                    }).sum()
                })
                .collect()
        };
        let rich0 = wealth(&w);
        for (step, at) in c.attacks.iter().enumerate() {
            let mut ix = genuine(&a, at.kind, at.pair as usize, 1, at.amount);
            if let Some(f) = &at.free {
                ix.accounts = f
                    .iter()
                    .map(|(k, fl)| {
                        let k = if fl & 4 != 0 { role(&a.pairs[*k as usize % a.pairs.len()], fl >> 3) } else { a.pool[*k as usize % a.pool.len()] };
                        solana_instruction::AccountMeta { pubkey: k, is_signer: fl & 1 != 0, is_writable: fl & 2 != 0 }
                    })
                    .collect();
            }
            for m in &at.muts {
                mutate(&a, &mut ix, m);
            }
            // signatures: only the attacker's
            for m in ix.accounts.iter_mut() {
                if m.is_signer && !attackers().contains(&m.pubkey) && !(at.mint_authority && m.pubkey == mint_authority_key()) {
                    m.is_signer = false;
                }
            }
            // one account, one set of flags within an instruction list is not required; the runtime unions them
            let before = w.clone();
            let r = w.exec(vm, &ix);
            let plain = at.muts.is_empty() && at.free.is_none();
            match &r {
                Ok(()) => {
                    st.hit(format!("{} accepted", if plain { "genuine" } else { "mutated" }));
                    st.nontrivial |= !plain;
                }
                Err(e) => {
                    let deep = vm.logs().iter().filter(|l| l.contains("invoke [2]")).count() > 0;
                    st.hit(format!("{} refused{}", if plain { "genuine" } else { "mutated" }, if deep { " inside a called program" } else { "" }));
                    st.nontrivial |= !plain && deep;
                    let logs = vm.logs();
                    if *e == InstructionError::ProgramFailedToComplete || logs.iter().any(|l| l.contains("panicked") || l.contains("Access violation")) {
                        let tw = logs.iter().any(|l| l.contains(&format!("Program {TW} failed")) && !l.contains("custom program error"));
                        if tw {
                            return viol("crash", format!("step {step} {at:?}: the program crashed: {e:?}: {}", tail_logs(vm)));
                        }
                    }
                }
            }
            if r.is_err() {
                if let Some(d) = before.diff(&w, &[]) {
                    return viol("refused-but-changed", format!("step {step}: {d}"));
                }
                continue;
            }
            let d = |sig: &str, msg: String| -> Result<(), Violation> { viol(sig, format!("step {step} {at:?}: {msg}; instruction {ix:?}")) };
            if total_lamports(&w) != lam0 {
                return d("lamports", format!("lamports went from {lam0} to {}", total_lamports(&w)));
            }
            // tokens
            for (i, m) in a.mints.iter().enumerate() {
                if before.supply(&m.k) != w.supply(&m.k) {
                    return d("unwrapped-supply", format!("supply of unwrapped mint {i} went from {} to {}", before.supply(&m.k), w.supply(&m.k)));
                }
                for q in [2 * i, 2 * i + 1] {
                    let p = &a.pairs[q];
                    let slack = |w: &World| w.amount(&p.escrow) as i128 - w.supply(&p.wmint) as i128;
                    if slack(&w) < slack(&before) {
                        return d("backing", format!("escrow minus supply of pair {q} fell from {} to {}", slack(&before), slack(&w)));
                    }
                }
            }
            for (i, (x, y)) in rich0.iter().zip(wealth(&w)).enumerate() {
                if y > *x {
                    return d("theft", format!("the attacker's holdings of mint {i} grew from {x} to {y}"));
                }
            }
            // accounts
            let names: Vec<Pubkey> = a.pairs.iter().flat_map(|p| [p.wmint, p.escrow, p.backptr, canonical_pointer(&p.umint), metaplex_pda(&p.wmint), p.wauth]).collect();
            for (k, x) in &before.a {
                let y = w.a.get(k);
                if y == Some(x) || names.contains(k) {
                    // the program's own accounts: owner never changes once they have one
                    if let Some(y) = y {
                        if y.owner != x.owner && !x.data.is_empty() {
                            return d("owner-changed", format!("{k}: {} -> {}", descr(Some(x)), descr(Some(y))));
                        }
                    }
                    continue;
                }
                let Some(y) = y else { return d("vanished", format!("account {k} ({}) is gone", descr(Some(x)))) };
                if y.owner != x.owner || y.executable != x.executable {
                    return d("owner-changed", format!("{k}: {} -> {}", descr(Some(x)), descr(Some(y))));
                }
                let mine = |acc: &tok::Acct| attackers().contains(&acc.owner) || acc.owner == key("mallory-multisig", 0) || acc.owner == key("mallory-multisig", 1);
                if y.lamports < x.lamports {
                    return d("lamports-taken", format!("{k}: {} -> {}", descr(Some(x)), descr(Some(y))));
                }
                if y.data != x.data {
                    match (tok::acct(&x.data), tok::acct(&y.data)) {
                        (Some(t), Some(u)) if x.owner == SPL || x.owner == T22 => {
                            // receiving is fine; everything else of it stays
                            if u.amount < t.amount && !mine(&t) {
                                return d("tokens-taken", format!("{k}: {} -> {}", t.amount, u.amount));
                            }
                            if (t.mint, t.owner, t.delegate, t.state, t.close_auth, t.delegated) != (u.mint, u.owner, u.delegate, u.state, u.close_auth, u.delegated) {
                                return d("account-rewritten", format!("{k}: {t:?} -> {u:?}"));
                            }
                        }
                        _ => return d("data-changed", format!("{k}: {} -> {}", descr(Some(x)), descr(Some(y)))),
                    }
                }
            }
            // pointers only by their mint's authority
            for m in &a.mints {
                let k = canonical_pointer(&m.k);
                if before.a.get(&k).map(|a| &a.data) != w.a.get(&k).map(|a| &a.data) {
                    let ok = ix.accounts.first().map(|x| x.is_signer && Some(x.pubkey) == before.mint(&m.k).and_then(|m| m.authority)).unwrap_or(false) && ix.data.first() == Some(&6);
                    if !ok {
                        return d("pointer", format!("the canonical pointer of {} changed", m.k));
                    }
                }
            }
            // wrapped mints stay under the program
            for p in &a.pairs {
                if let Some(m) = w.mint(&p.wmint) {
                    if m.authority != Some(p.wauth) || m.decimals != 6 || m.freeze != Some(freeze_key()) {
                        return d("wrapped-mint", format!("{m:?}"));
                    }
                }
            }
        }
        Ok(())
    }
}
