//! C17: the library's instruction builders.
use {
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    spl_token_wrap::instruction as lib,
    twchain::{arena::*, engine::*, lab::tail_logs, vm::*, world::*},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BuildCase {
    pub keys: Vec<[u8; 32]>,
    pub signers: Vec<[u8; 32]>,
    pub amount: u64,
    pub flag: bool,
    /// optional source metadata and owner program
    pub opt: (bool, bool),
    /// executed with derived addresses
    pub kind: u8,
    pub pair: u8,
    pub who: u8,
    pub exec_amount: u64,
    pub multisig: u8,
}
pub struct C17;

fn m(k: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: signer, is_writable: writable }
}
fn same(what: &str, got: Instruction, program: Pubkey, accounts: Vec<AccountMeta>, data: Vec<u8>) -> Result<(), Violation> {
    if got.program_id != program {
        return viol("program", format!("{what}: program {} instead of {program}", got.program_id));
    }
    if got.accounts != accounts {
        return viol("accounts", format!("{what}: accounts {:?}, documented {accounts:?}", got.accounts));
    }
    if got.data != data {
        return viol("data", format!("{what}: data {:?}, documented {data:?}", got.data));
    }
    Ok(())
}

impl Prop for C17 {
    type Case = BuildCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "multisig signers or optional accounts are present, or the built instruction was executed and accepted"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 2_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BuildCase> {
        let k = || prop_oneof![6 => any::<[u8; 32]>(), 1 => prop::sample::select(vec![SPL, T22, SYS, MPL, TW, RENT]).prop_map(|k| k.to_bytes())];
        (vec(k(), 12), vec(k(), 0..12), any::<u64>(), any::<bool>(), any::<(bool, bool)>(), 0u8..10, any::<u8>(), any::<u8>(), 1u64..90_000, 0u8..4)
            .prop_map(|(keys, signers, amount, flag, opt, kind, pair, who, exec_amount, multisig)| BuildCase { keys, signers, amount, flag, opt, kind, pair, who, exec_amount, multisig })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &BuildCase, st: &mut Stats) -> Result<(), Violation> {
        let k: Vec<Pubkey> = c.keys.iter().map(|x| Pubkey::new_from_array(*x)).collect();
        let signers: Vec<Pubkey> = c.signers.iter().map(|x| Pubkey::new_from_array(*x)).collect();
        let sref: Vec<&Pubkey> = signers.iter().collect();
        let single = signers.is_empty();
        st.nontrivial = !single || c.opt.0 || c.opt.1;
        st.hit(format!("{} multisig signers", signers.len()));
        same("create_mint", lib::create_mint(&k[0], &k[1], &k[2], &k[3], &k[4], c.flag), k[0],
            vec![m(k[1], false, true), m(k[2], false, true), m(k[3], false, false), m(SYS, false, false), m(k[4], false, false)], vec![0, c.flag as u8])?;
        let multi = || signers.iter().map(|s| m(*s, true, false)).collect::<Vec<_>>();
        let mut acc = vec![
            m(k[1], false, true), m(k[2], false, true), m(k[3], false, false), m(k[4], false, false), m(k[5], false, false),
            m(k[6], false, true), m(k[7], false, false), m(k[8], false, true), m(k[9], single, false),
        ];
        acc.extend(multi());
        same("wrap", lib::wrap(&k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], &k[8], &k[9], &sref, c.amount), k[0], acc, amount_data(1, c.amount))?;
        let mut acc = vec![
            m(k[1], false, true), m(k[2], false, true), m(k[3], false, false), m(k[4], false, false), m(k[5], false, false),
            m(k[6], false, false), m(k[7], false, true), m(k[8], false, true), m(k[9], single, false),
        ];
        acc.extend(multi());
        same("unwrap", lib::unwrap(&k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], &k[8], &k[9], &sref, c.amount), k[0], acc, amount_data(2, c.amount))?;
        same("close_stuck_escrow", lib::close_stuck_escrow(&k[0], &k[1], &k[2], &k[3], &k[4], &k[5]), k[0],
            vec![m(k[1], false, true), m(k[2], false, true), m(k[3], false, false), m(k[4], false, false), m(k[5], false, false), m(T22, false, false)], vec![3])?;
        let (src, own) = (c.opt.0.then_some(&k[6]), c.opt.1.then_some(&k[7]));
        let tail = || src.iter().chain(own.iter()).map(|x| m(**x, false, false)).collect::<Vec<_>>();
        let mut acc = vec![m(k[1], false, true), m(k[2], false, false), m(k[3], false, false), m(T22, false, false)];
        acc.extend(tail());
        same("sync_metadata_to_token_2022", lib::sync_metadata_to_token_2022(&k[0], &k[1], &k[2], &k[3], src, own), k[0], acc, vec![4])?;
        let mut acc = vec![
            m(k[1], false, true), m(k[2], false, true), m(k[3], false, false), m(k[4], false, false), m(MPL, false, false), m(SYS, false, false), m(RENT, false, false),
        ];
        acc.extend(tail());
        same("sync_metadata_to_spl_token", lib::sync_metadata_to_spl_token(&k[0], &k[1], &k[2], &k[3], &k[4], src, own), k[0], acc, vec![5])?;
        same("set_canonical_pointer", lib::set_canonical_pointer(&k[0], &k[1], &k[2], &k[3], &k[4]), k[0],
            vec![m(k[1], true, false), m(k[2], false, true), m(k[3], false, false), m(SYS, false, false)], [vec![6], k[4].to_bytes().to_vec()].concat())?;

        // with derived addresses, in the VM, with those flags and no more
        let vm = &mut vms[0];
        let a = arena(vm);
        let kind = KINDS[c.kind as usize % 8];
        let who = c.who as usize % 2;
        let g = genuine(&a, kind, c.pair as usize, who, c.exec_amount);
        let mut w = a.w.clone();
        let umint_at = match kind {
            Kind::Create | Kind::CreateAgain | Kind::Close | Kind::Sync22 | Kind::Pointer => 2,
            Kind::Wrap => 6,
            Kind::Unwrap | Kind::SyncSpl => 3,
        };
        let u = g.accounts[umint_at].pubkey;
        let wprog = match kind {
            Kind::Create | Kind::CreateAgain | Kind::Wrap | Kind::Unwrap => g.accounts[4].pubkey,
            Kind::Close => if w.a.get(&g.accounts[3].pubkey).map(|x| x.owner) == Some(SPL) { SPL } else { T22 },
            Kind::SyncSpl => SPL,
            _ => T22,
        };
        let up = w.get(vm, &u).owner;
        use spl_token_wrap as tw;
        let wm = tw::get_wrapped_mint_address(&u, &wprog);
        let wa = tw::get_wrapped_mint_authority(&wm);
        let es = tw::get_escrow_address(&u, &up, &wprog);
        let src_meta = metaplex_pda(&u);
        let src = (u != a.mints[1].k).then_some(&src_meta);
        let msig = c.multisig == 0 && matches!(kind, Kind::Wrap | Kind::Unwrap);
        let (mut auth, mut members) = (actor(who), vec![]);
        if msig {
            // the source account belongs to a 2-of-3 multisig
            let (mint, prog) = if kind == Kind::Wrap { (u, up) } else { (wm, wprog) };
            auth = key("c17-multisig", 0);
            let all = [key("c17-member", 0), key("c17-member", 1), key("c17-member", 2)];
            let skip = c.signers.len() % 4;
            members = all.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, k)| *k).collect();
            create_multisig(&mut w, vm, auth, prog, &all, 2);
            let acc = w.a.get_mut(&acct_of(who, &mint)).unwrap();
            acc.data[32..64].copy_from_slice(auth.as_ref());
        }
        let mref: Vec<&Pubkey> = members.iter().collect();
        let ix = match kind {
            Kind::Create | Kind::CreateAgain => lib::create_mint(&tw::id(), &wm, &tw::get_wrapped_mint_backpointer_address(&wm), &u, &wprog, kind == Kind::CreateAgain || c.flag),
            Kind::Wrap => lib::wrap(&tw::id(), &acct_of(who, &wm), &wm, &wa, &up, &wprog, &acct_of(who, &u), &u, &es, &auth, &mref, c.exec_amount),
            Kind::Unwrap => lib::unwrap(&tw::id(), &es, &acct_of(who, &u), &wa, &u, &wprog, &up, &acct_of(who, &wm), &wm, &auth, &mref, c.exec_amount),
            Kind::Close => lib::close_stuck_escrow(&tw::id(), &es, &actor(who), &u, &wm, &wa),
            Kind::Sync22 => lib::sync_metadata_to_token_2022(&tw::id(), &wm, &wa, &u, src, None),
            Kind::SyncSpl => lib::sync_metadata_to_spl_token(&tw::id(), &metaplex_pda(&wm), &wa, &wm, &u, src, None),
            Kind::Pointer => lib::set_canonical_pointer(&tw::id(), &mint_authority_key(), &tw::get_canonical_pointer_address(&u), &u, &k[0]),
        };
        let before = w.clone();
        // whether it should work is decided with independently built accounts
        let mut ref_ix = g.clone();
        if msig {
            let n = ref_ix.accounts.len() - 1;
            ref_ix.accounts[n] = m(auth, false, false);
            ref_ix.accounts.extend(members.iter().map(|s| m(*s, true, false)));
        }
        if kind == Kind::Pointer || matches!(kind, Kind::Create) {
            ref_ix.data = ix.data.clone();
        }
        let want = before.clone().exec(vm, &ref_ix);
        let got = w.exec(vm, &ix);
        if got != want {
            return viol("executed", format!("{kind:?} built with derived addresses gives {got:?}, the documented accounts {want:?}: {}; {ix:?} vs {ref_ix:?}", tail_logs(vm)));
        }
        if got.is_ok() && w != { let mut r = before.clone(); r.exec(vm, &ref_ix).ok(); r } {
            return viol("executed", format!("{kind:?} built with derived addresses has another effect: {ix:?} vs {ref_ix:?}"));
        }
        let expected_ok = !(matches!(kind, Kind::Wrap | Kind::Unwrap) && msig && c.exec_amount > 90_000);
        if expected_ok && got.is_err() {
            return viol("refused", format!("{kind:?} on pair {} is refused: {got:?}: {}", c.pair, tail_logs(vm)));
        }
        st.hit(format!("{kind:?}{} {}", if msig { " by multisig" } else { "" }, if got.is_ok() { "accepted" } else { "refused" }));
        st.nontrivial |= got.is_ok();
        Ok(())
    }
}
