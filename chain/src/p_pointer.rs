//! C14: the canonical pointer is set only by the mint's current authority.
use {
    crate::{engine::*, lab::*, p_create::*, tok, vm::*, world::*},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::AccountMeta,
    solana_pubkey::Pubkey,
    spl_token_2022_interface::instruction::AuthorityType,
    std::collections::BTreeMap,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PAct {
    Set { m: u8, who: u8, signed: bool, target: [u8; 32], at: u8, writable: bool },
    /// hand the mint authority to someone, or to nobody
    Hand { m: u8, to: Option<u8> },
    Fund { m: u8, delta: i64 },
    Create { m: u8, t22: bool },
    CloseMint { m: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PointerCase {
    pub mints: Vec<AnyMint>,
    pub non_mint: u8,
    pub acts: Vec<PAct>,
}
pub struct C14;

fn who(i: u8) -> Pubkey {
    key("any-authority", 1 + (i % 4) as u64)
}

impl Prop for C14 {
    type Case = PointerCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "at least one pointer was set and at least one attempt refused"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 20_000 } else { 800_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<PointerCase> {
        let delta = prop_oneof![8 => Just(0i64), 1 => Just(-1), 1 => Just(1), 1 => -3_000_000i64..2_000_000];
        // any program; nobody; ones that mean something here
        let target = prop_oneof![
            4 => any::<[u8; 32]>(),
            1 => Just([0u8; 32]),
            1 => prop::sample::select(vec![TW, SPL, T22, PROXY, canonical_pointer(&key("unwrapped", 0)), key("unwrapped", 0)]).prop_map(|k| k.to_bytes()),
            1 => (any::<u8>(), 0usize..32).prop_map(|(b, i)| { let mut t = [0u8; 32]; t[i] = b; t }),
            1 => Just([255u8; 32])
        ];
        let act = prop_oneof![
            12 => (prop_oneof![9 => 0u8..4, 1 => Just(4u8)], prop_oneof![1 => 0u8..6, 1 => Just(6u8)], prop::bool::weighted(0.93), target, prop_oneof![16 => Just(0u8), 1 => 1u8..6], prop::bool::weighted(0.95))
                .prop_map(|(m, who, signed, target, at, writable)| PAct::Set { m, who, signed, target, at, writable }),
            4 => (0u8..4, prop::option::weighted(0.93, 0u8..4)).prop_map(|(m, to)| PAct::Hand { m, to }),
            4 => (0u8..5, delta).prop_map(|(m, delta)| PAct::Fund { m, delta }),
            1 => (0u8..4, any::<bool>()).prop_map(|(m, t22)| PAct::Create { m, t22 }),
            1 => (0u8..12).prop_map(|m| PAct::CloseMint { m }),
        ];
        (vec(any_mint(), 1..4), 0u8..6, vec(act, 2..24)).prop_map(|(mints, non_mint, acts)| PointerCase { mints, non_mint, acts }).boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &PointerCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let mut w = World::default();
        let mut mints: Vec<(Pubkey, Pubkey)> = vec![];
        for (i, m) in c.mints.iter().enumerate() {
            let mut m = m.clone();
            m.id = i as u64;
            m.cfg.native = false;
            // most mints have an authority, so that pointers get set
            m.authority = m.authority.or((m.supply % 8 != 0).then_some(m.cfg.decimals)).map(|a| 1 + a % 4);
            let k = put_any_mint(&mut w, vm, &m);
            mints.push((k, m.cfg.prog()));
            if m.supply % 3 != 0 {
                w.fund(canonical_pointer(&k), vm.rent(32)); // paid for by the first act otherwise
            }
        }
        // one account that is no mint
        let nm = key("no-mint", 0);
        match c.non_mint {
            0 => create_account(&mut w, vm, nm, mints[0].0, mints[0].1, &c.mints[0].cfg.types(), who(0), &[], AcctOpts::default()),
            1 => {
                // mint bytes under another owner, naming an authority
                let mut a = w.a[&mints[0].0].clone();
                a.data[0..4].copy_from_slice(&[1, 0, 0, 0]);
                a.data[4..36].copy_from_slice(who(0).as_ref());
                a.owner = MOCK_META;
                w.a.insert(nm, a);
            }
            2 => create_multisig(&mut w, vm, nm, mints[0].1, &[who(0)], 1),
            3 => w.put(nm, mints[0].1, vm.rent(82), vec![0; 82]),
            4 => w.fund(nm, 1_000_000),
            _ => {
                let mut a = w.a[&mints[0].0].clone();
                a.data[0..4].copy_from_slice(&[1, 0, 0, 0]);
                a.data[4..36].copy_from_slice(who(0).as_ref());
                a.data[45] = 0;
                w.a.insert(nm, a);
            }
        }
        // what lies at an authority's own address is its own business
        w.put(who(1), PROXY, 5_000_000, vec![7; 33]);
        w.put(who(2), MPL, 1_000_000, vec![]);
        let mut model: BTreeMap<Pubkey, [u8; 32]> = BTreeMap::new();
        let (mut set, mut refused) = (0, 0);
        for (step, a) in c.acts.iter().enumerate() {
            let pick = |m: u8| -> Pubkey {
                let i = m as usize;
                if i >= 4 { nm } else { mints[i % mints.len()].0 }
            };
            match a {
                PAct::Fund { m, delta } => {
                    let k = canonical_pointer(&pick(*m));
                    if !w.a.contains_key(&k) {
                        w.fund(k, (vm.rent(32) as i64 + delta).max(1) as u64);
                    }
                }
                PAct::Hand { m, to } => {
                    let k = pick(*m);
                    let prog = w.a.get(&k).map(|a| a.owner).unwrap_or(SPL);
                    let old = w.mint(&k).and_then(|x| x.authority);
                    if let Some(o) = old {
                        let ix = ix_set_authority(prog, k, to.map(who), AuthorityType::MintTokens, rs(o), &[]);
                        let _ = w.exec(vm, &ix);
                    }
                }
                PAct::Create { m, t22 } => {
                    let k = pick(*m);
                    let prog = mints[*m as usize % mints.len()].1;
                    let p = Pair::new(k, prog, if *t22 { T22 } else { SPL });
                    if !w.a.contains_key(&p.wmint) {
                        w.fund(p.wmint, vm.rent(400));
                        w.fund(p.backptr, vm.rent(32));
                        let _ = w.exec(vm, &ix_create_mint(&p, false));
                    }
                }
                PAct::CloseMint { m } => {
                    if *m >= 4 {
                        continue;
                    }
                    let k = pick(*m);
                    if let Some(x) = w.a.get_mut(&k) {
                        if x.owner == T22 && tok::ext(&x.data, 3).is_some() && tok::mint(&x.data).is_some() {
                            x.data[36..44].fill(0);
                            let ix = spl_token_2022_interface::instruction::close_account(&T22, &k, &key("payer", 0), &admin_key(), &[]).unwrap();
                            let _ = w.exec(vm, &ix);
                        }
                    }
                }
                PAct::Set { m, who: wi, signed, target, at, writable } => {
                    let k = pick(*m);
                    let acc = w.a.get(&k).cloned();
                    let owned = acc.as_ref().map(|a| a.owner == SPL || a.owner == T22).unwrap_or(false);
                    let ms = acc.as_ref().and_then(|a| tok::mint(&a.data));
                    let auth = match *wi {
                        0..=3 => who(*wi),
                        4 => freeze_key(),
                        5 => admin_key(),
                        // the present authority, whoever it is
                        _ => ms.as_ref().and_then(|m| m.authority).unwrap_or(who(0)),
                    };
                    let right = canonical_pointer(&k);
                    let other = canonical_pointer(&pick(m.wrapping_add(1) % 4));
                    let ptr = [right, other, authority(&k), backpointer(&k), key("free", 1), wrapped_mint(&k, &SPL)][*at as usize % 6];
                    let mut ix = ix_set_pointer(AccountMeta::new_readonly(auth, *signed), k, Pubkey::new_from_array(*target));
                    ix.accounts[1].pubkey = ptr;
                    ix.accounts[1].is_writable = *writable;
                    let cur = w.a.get(&right).cloned();
                    let exists = cur.as_ref().map(|a| !a.data.is_empty()).unwrap_or(false);
                    let funded = exists || cur.as_ref().map(|a| a.lamports).unwrap_or(0) >= vm.rent(32);
                    let why = if !signed {
                        Some("the authority did not sign")
                    } else if !owned || ms.is_none() {
                        Some("the account is not a mint")
                    } else if ms.as_ref().unwrap().authority.is_none() {
                        Some("the mint has no authority")
                    } else if ms.as_ref().unwrap().authority != Some(auth) {
                        Some("the signer is not the mint authority")
                    } else if ptr != right {
                        Some("the pointer address is wrong")
                    } else if !funded {
                        Some("the pointer is under-funded")
                    } else if !writable {
                        Some("the pointer account is not writable")
                    } else {
                        None
                    };
                    let before = w.clone();
                    let r = w.exec(vm, &ix);
                    match (r, why) {
                        (Ok(()), Some(y)) => return viol("set-wrongly", format!("step {step} {a:?}: pointer set although {y}")),
                        (Err(e), None) => return viol("refused", format!("step {step} {a:?}: refused: {e:?}: {}", tail_logs(vm))),
                        (Err(_), Some(y)) => {
                            refused += 1;
                            st.hit(format!("refused: {y}"));
                            if let Some(d) = before.diff(&w, &[]) {
                                return viol("refused-but-changed", format!("step {step}: {d}"));
                            }
                        }
                        (Ok(()), None) => {
                            set += 1;
                            st.hit(if exists { "pointer updated" } else { "pointer created" });
                            model.insert(right, *target);
                            if let Some(d) = before.diff(&w, &[right]) {
                                return viol("side-effect", format!("step {step}: {d}"));
                            }
                            let (b, a) = (before.lamports(&right), w.lamports(&right));
                            if a != b {
                                return viol("lamports", format!("step {step}: pointer lamports {b} -> {a}"));
                            }
                        }
                    }
                }
            }
            for (k, t) in &model {
                let Some(a) = w.a.get(k) else { return viol("lost", format!("step {step}: pointer {k} disappeared")) };
                if a.owner != TW || a.data != t {
                    return viol("wrong-value", format!("step {step} {a:?}: pointer {} holds {:02x?}, last set to {:02x?}", k, a.data, t));
                }
            }
        }
        st.nontrivial = set > 0 && refused > 0;
        Ok(())
    }
}
