//! C12: synced metadata comes only from the mint's authentic source.
use {
    crate::{engine::*, lab::tail_logs, meta::*, p_sync::*, tok, vm::*, world::*},
    proptest::prelude::*,
    serde::{Deserialize, Serialize},
    solana_account::Account,
    solana_instruction::{error::InstructionError, AccountMeta},
    solana_pubkey::Pubkey,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SourceCase {
    pub spl_src: bool,
    pub to_spl: bool,
    /// pointer: 0 no extension, 1 unset, otherwise place(pointer)
    pub pointer: u8,
    /// supplied source account: 0 none, 1 what the mint designates, otherwise place(supplied)
    pub supplied: u8,
    /// supplied owner program: 0 none, 1 the right one, otherwise other()
    pub program: u8,
    pub more: u8,
    /// external answer: mode byte; 0 payload, 1 nothing, 2 fail, 3 twice, 4 truncated, 5 empty, 6 garbage
    pub answer: u8,
    pub cut: u16,
    /// 0 genuine Metaplex record, 1 owned by somebody else, 2 wrong key byte, 3 truncated, 4 absent, 5 longer junk tail
    pub record: u8,
    /// does the mint hold metadata itself
    pub own: bool,
    pub synced_before: bool,
    pub writable: bool,
    pub metas: Vec<Meta>,
}
pub struct C12;

const PLACES: u8 = 12;
fn umint() -> Pubkey {
    key("unwrapped", 901)
}
fn other_mint() -> Pubkey {
    key("unwrapped", 902)
}
fn place(i: u8) -> Pubkey {
    match i % PLACES {
        0 => umint(),
        1 => metaplex_pda(&umint()),
        2 => metaplex_pda(&other_mint()),
        3 => key("external-metadata", 1),
        4 => key("external-metadata", 2), // of the second external program
        5 => other_mint(),                // a Token-2022 mint with metadata
        6 => key("look-alike", 1),        // a Metaplex-owned copy of the record elsewhere
        7 => key("look-alike", 2),        // a copy owned by an external program
        8 => key("plain", 0),             // a system account
        9 => key("absent", 0),
        10 => wrapped_mint(&umint(), &T22),
        _ => key("look-alike", 3), // a Metaplex-owned account that is no metadata record
    }
}
fn program(i: u8) -> Pubkey {
    [MOCK_META, MOCK_META2, MPL, T22, SYS, key("plain", 0), TW, MOCK_HOOK][i as usize % 8]
}

#[derive(Debug, Clone, PartialEq)]
enum Source {
    Own,
    Mpx(usize),
    Ext(usize),
}

impl Prop for C12 {
    type Case = SourceCase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "a sync was decided with a wrong, missing or surplus account, a doctored source, or succeeded from the designated source; cases differ in what is supplied"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 1_500_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<SourceCase> {
        let supplied = prop_oneof![6 => Just(1u8), 1 => Just(0), 5 => 2u8..2 + PLACES];
        let program = prop_oneof![6 => Just(1u8), 1 => Just(0), 2 => 2u8..10];
        let pointer = prop_oneof![2 => Just(0u8), 1 => Just(1), 3 => Just(2), 3 => Just(3), 1 => Just(4), 4 => Just(5), 2 => Just(6), 2 => 7u8..2 + PLACES];
        let metas = proptest::collection::vec(meta(0, 30, 4), 8);
        (
            (prop::bool::weighted(0.25), any::<bool>(), pointer, supplied, program, 0u8..6),
            (prop_oneof![8 => Just(0u8), 6 => 1u8..7], any::<u16>(), prop_oneof![8 => Just(0u8), 4 => 1u8..6], prop::bool::weighted(0.8), any::<bool>(), prop::bool::weighted(0.1), metas),
        )
            .prop_map(|((spl_src, to_spl, pointer, supplied, program, more), (answer, cut, record, own, synced_before, writable, metas))| SourceCase {
                spl_src, to_spl, pointer, supplied, program, more, answer, cut, record, own, synced_before, writable, metas,
            })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &SourceCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let mut w = World::default();
        let t22 = !c.spl_src;
        // distinct contents everywhere; a name tells where it came from
        let metas: Vec<Meta> = c
            .metas
            .iter()
            .enumerate()
            .map(|(i, m)| {
                let mut m = m.clone();
                m.name = format!("src{i}");
                m.symbol = format!("S{i}");
                m.uri = format!("u{i}");
                m.special.creators = None;
                m.special.uses = None;
                m.special.fee = Some(Fld::Good(100 + i as u16, 0));
                m.fields.truncate(4);
                if ![4, 5, 7].contains(&i) {
                    m.again.clear(); // only an external program names a key twice
                }
                m
            })
            .collect();
        // the mint
        let mut pointed = Option::<Pubkey>::None;
        let has_ptr = t22 && c.pointer != 0;
        let cfg = MintCfg { t22, native: false, decimals: 3, freeze: false, ext: if has_ptr { xb::META_POINTER } else { 0 }, fees: vec![] };
        let own = c.own && has_ptr;
        create_mint(&mut w, vm, umint(), &cfg, None);
        if has_ptr {
            if own {
                set_self_meta(&mut w, vm, umint(), &metas[0]);
            }
            if c.pointer >= 2 {
                pointed = Some(place(c.pointer - 2));
            }
            if pointed != Some(umint()) {
                let ix = spl_token_2022_interface::extension::metadata_pointer::instruction::update(&T22, &umint(), &admin_key(), &[], pointed).unwrap();
                w.must(vm, &ix);
            }
        }
        // its Metaplex record
        let rec = metas[1].mpx_bytes(&umint());
        let mut pda = Account { lamports: vm.rent(rec.len()) * 2, data: rec.clone(), owner: MPL, executable: false, rent_epoch: 0 };
        match c.record {
            1 => pda.owner = MOCK_META,
            2 => pda.data[0] = [0u8, 1, 2, 3, 5, 6, 11][c.cut as usize % 7],
            3 => pda.data.truncate(c.cut as usize % 80),
            5 => pda.data.extend_from_slice(&[0xff; 40]),
            _ => {}
        }
        if c.record != 4 {
            w.a.insert(place(1), pda);
        }
        // other mint (Token-2022, own metadata), its record
        let ocfg = MintCfg { t22: true, native: false, decimals: 3, freeze: false, ext: xb::META_POINTER, fees: vec![] };
        create_mint(&mut w, vm, other_mint(), &ocfg, None);
        set_self_meta(&mut w, vm, other_mint(), &metas[2]);
        let d = metas[3].mpx_bytes(&other_mint());
        w.put(place(2), MPL, vm.rent(d.len()), d);
        // external accounts
        for (i, (at, prog)) in [(3u8, MOCK_META), (4, MOCK_META2)].into_iter().enumerate() {
            let full = metas[4 + i].t22_bytes(&admin_key(), &umint());
            let payload = match c.answer {
                4 => full[..c.cut as usize % full.len()].to_vec(),
                5 => vec![],
                6 => vec![0xff; 1 + c.cut as usize % 300],
                _ => full,
            };
            let mut d = vec![[0u8, 1, 2, 3][if c.answer < 4 { c.answer as usize } else { 0 }]];
            d.extend(payload);
            w.put(place(at), prog, vm.rent(d.len()), d);
        }
        // look-alikes
        let d = metas[6].mpx_bytes(&umint());
        w.put(place(6), MPL, vm.rent(d.len()), d);
        let mut d = vec![0u8];
        d.extend(metas[7].t22_bytes(&admin_key(), &umint()));
        w.put(place(7), MOCK_META, vm.rent(d.len()), d);
        w.fund(place(8), 1_000_000);
        let mut d = metas[6].mpx_bytes(&umint());
        d[0] = 6;
        w.put(place(11), MPL, vm.rent(d.len()), d);
        // both pairs
        let p = Pair::new(umint(), cfg.prog(), if c.to_spl { SPL } else { T22 });
        create_pair(&mut w, vm, &Pair::new(umint(), cfg.prog(), T22));
        create_pair(&mut w, vm, &Pair::new(umint(), cfg.prog(), SPL));
        w.fund(p.wmint, 10_000_000_000);
        w.fund(p.wauth, 10_000_000_000);
        if c.synced_before {
            // give the target earlier content, from the record as it was meant to be
            let save = w.a.get(&place(1)).cloned();
            let mints = w.a[&umint()].clone();
            let d = metas[1].mpx_bytes(&umint());
            w.put(place(1), MPL, vm.rent(d.len()), d);
            if has_ptr {
                let ix = spl_token_2022_interface::extension::metadata_pointer::instruction::update(&T22, &umint(), &admin_key(), &[], Some(place(1))).unwrap();
                w.must(vm, &ix);
            }
            let ix = if c.to_spl { ix_sync_spl(&p, &[place(1)]) } else { ix_sync22(&p, &[place(1)]) };
            let _ = w.exec(vm, &ix);
            w.a.insert(umint(), mints);
            match save {
                Some(a) => w.a.insert(place(1), a),
                None => w.a.remove(&place(1)),
            };
        }

        // the designated source
        let designated = if !has_ptr { Some(place(1)) } else { pointed };
        let owner = |k: &Pubkey| w.get(vm, k).owner;
        let right_program = designated.map(|d| owner(&d)).unwrap_or(SYS);
        // what is supplied
        let sup = match c.supplied {
            0 => None,
            1 => designated,
            i => Some(place(i - 2)),
        };
        let prog = match c.program {
            0 => None,
            1 => Some(right_program),
            i => Some(program(i - 2)),
        };
        let mut tail: Vec<Pubkey> = vec![];
        if let Some(s) = sup {
            tail.push(s);
            if let Some(p) = prog {
                tail.push(p);
                // surplus accounts
                tail.extend([place(2), place(6), MOCK_META2, place(4)].iter().take(c.more.saturating_sub(2) as usize));
            }
        }
        let first = tail.first().copied();
        let second = tail.get(1).copied();
        // judge
        let readable = |k: &Pubkey| -> Option<usize> {
            if *k == place(1) {
                return matches!(c.record, 0 | 5).then_some(1);
            }
            (*k == place(2)).then_some(3).or((*k == place(6)).then_some(6))
        };
        let verdict: Result<Source, (&str, Option<u32>)> = if !has_ptr {
            match first {
                None => Err(("no source account", None)),
                Some(k) if k != place(1) => Err(("not the mint's Metaplex address", if owner(&k) == MPL && readable(&k).is_some() { Some(10) } else { None })),
                Some(k) if owner(&k) != MPL => Err(("not owned by Metaplex", None)),
                Some(k) => readable(&k).map(Source::Mpx).ok_or(("unreadable record", None)),
            }
        } else {
            match pointed {
                None => Err(("pointer unset", first.and(Some(12)))),
                Some(k) if k == umint() => {
                    if own { Ok(Source::Own) } else { Err(("the mint has no metadata", None)) }
                }
                Some(k) => match first {
                    None => Err(("no source account", None)),
                    Some(s) if s != k => {
                        // nothing else wrong with it
                        let sound = match owner(&s) {
                            T22 => false,
                            MPL => readable(&s).is_some(),
                            o => second == Some(o),
                        };
                        Err(("not where the pointer points", sound.then_some(13)))
                    }
                    Some(s) if owner(&s) == T22 => Err(("another Token-2022 account", None)),
                    Some(s) if owner(&s) == MPL => readable(&s).map(Source::Mpx).ok_or(("unreadable record", None)),
                    Some(s) => match second {
                        None => Err(("no owner program", None)),
                        Some(q) if q != owner(&s) => Err(("wrong owner program", None)),
                        Some(_) => {
                            let i = if s == place(3) { Some(4) } else if s == place(4) { Some(5) } else if s == place(7) { Some(7) } else { None };
                            match (i, c.answer) {
                                (Some(7), _) => Ok(Source::Ext(7)),
                                (Some(i), 0 | 3) => Ok(Source::Ext(i)),
                                (Some(_), 1 | 5) => Err(("external program is silent", Some(14))),
                                (Some(_), _) => Err(("external answer is unusable", None)),
                                (None, _) => Err(("owner is no metadata program", None)),
                            }
                        }
                    },
                },
            }
        };
        // a Metaplex address owned by an external program is asked like one; its bytes are a
        // Metaplex record, whose first byte is no mode the mock answers
        let mut ix = if c.to_spl { ix_sync_spl(&p, &[]) } else { ix_sync22(&p, &[]) };
        ix.accounts.extend(tail.iter().map(|k| AccountMeta { pubkey: *k, is_signer: false, is_writable: c.writable && !vm.programs.contains_key(k) }));
        let before = w.clone();
        let r = w.exec(vm, &ix);
        let target = if c.to_spl { metaplex_pda(&p.wmint) } else { p.wmint };
        match (r, verdict) {
            (Err(e), Err((why, code))) => {
                st.hit(format!("refused: {why}"));
                if let Some(d) = before.diff(&w, &[]) {
                    return viol("refused-but-changed", d);
                }
                if let Some(code) = code {
                    if e != InstructionError::Custom(code) {
                        return viol("error-code", format!("{why}: refused with {e:?}, documented code is {code}"));
                    }
                }
            }
            (Ok(()), Err((why, _))) => return viol("accepted", format!("synced although: {why}; target now {}", descr(w.a.get(&target)))),
            (Err(e), Ok(s)) => return viol("refused", format!("the genuine source {s:?} was refused: {e:?}: {}", tail_logs(vm))),
            (Ok(()), Ok(s)) => {
                st.hit(format!("accepted from {}", match s { Source::Own => "the mint", Source::Mpx(_) => "a Metaplex record", Source::Ext(_) => "an external program" }));
                let (m, from_mpx) = match s {
                    Source::Own => (&metas[0], false),
                    Source::Mpx(i) => (&metas[i], true),
                    Source::Ext(i) => (&metas[i], false),
                };
                if c.to_spl {
                    let Some(g) = read_mpx(w.data(&target)) else { return viol("unreadable", "no record") };
                    let fee = match m.special.fee {
                        Some(Fld::Good(f, _)) => f,
                        _ => 0,
                    };
                    if (&g.name, &g.symbol, &g.uri, g.fee) != (&m.name, &m.symbol, &m.uri, fee) {
                        return viol("other-source", format!("record {g:?}, the designated source is {}", m.name));
                    }
                } else {
                    let Some(g) = tok::ext(w.data(&target), 19).and_then(|b| read_t22_meta(&b)) else { return viol("unreadable", "no metadata") };
                    check_mirror(&g, &p, m, from_mpx)?;
                }
                let ignore = if c.to_spl { vec![target, p.wauth, MPL] } else { vec![target] };
                if let Some(d) = before.diff(&w, &ignore) {
                    return viol("side-effect", d);
                }
            }
        }
        st.nontrivial = true;
        Ok(())
    }
}
