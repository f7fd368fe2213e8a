//! C22: error codes, texts, and what failing transactions report.
use {
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::{error::InstructionError, Instruction},
    solana_pubkey::Pubkey,
    solana_program_error::{ProgramError, ToStr},
    spl_token_wrap::error::TokenWrapError,
    twchain::{arena::*, engine::*, lab::tail_logs, vm::*, world::*},
};

/// The documented errors, in order.
pub const ERRORS: [(&str, &str); 16] = [
    ("WrappedMintMismatch", "Wrapped mint account address does not match expected PDA"),
    ("BackpointerMismatch", "Wrapped backpointer account address does not match expected PDA"),
    ("ZeroWrapAmount", "Wrap amount should be positive"),
    ("MintAuthorityMismatch", "Wrapped mint authority does not match expected PDA"),
    ("EscrowOwnerMismatch", "Unwrapped escrow token owner is not set to expected PDA"),
    ("InvalidWrappedMintOwner", "Wrapped mint account owner is not the expected token program"),
    ("InvalidBackpointerOwner", "Wrapped backpointer account owner is not the expected token wrap program"),
    ("EscrowMismatch", "Escrow account address does not match expected ATA"),
    ("EscrowInGoodState", "The escrow account is in a good state and cannot be recreated"),
    ("UnwrappedMintHasNoMetadata", "Unwrapped mint does not have the TokenMetadata extension"),
    ("MetaplexMetadataMismatch", "Metaplex metadata account address does not match expected PDA"),
    ("MetadataPointerMissing", "Metadata pointer extension missing on mint"),
    ("MetadataPointerUnset", "Metadata pointer is unset (None)"),
    ("MetadataPointerMismatch", "Provided source metadata account does not match pointer"),
    ("ExternalProgramReturnedNoData", "External metadata program returned no data"),
    ("NoSyncingToToken2022", "Instruction can only be used with spl-token wrapped mints"),
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ErrCase {
    pub code: u32,
    pub kind: Kind,
    pub pair: u8,
    pub amount: u64,
    pub muts: Vec<Mutation>,
    /// a state that calls for one particular error, see `stage`
    pub stage: Option<(u8, u8)>,
}
pub struct C22;

/// Camel case or snake case, to compare names across languages.
fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase()
}

fn published() -> &'static Result<(), (String, String)> {
    static ONCE: std::sync::OnceLock<Result<(), (String, String)>> = std::sync::OnceLock::new();
    ONCE.get_or_init(|| {
        let err = |s: &str, m: String| Err((s.to_string(), m));
        let text = std::fs::read_to_string("/repo/idl.json").map_err(|e| ("idl".to_string(), e.to_string()))?;
        let idl: serde_json::Value = serde_json::from_str(&text).map_err(|e| ("idl".to_string(), e.to_string()))?;
        let errs = idl["program"]["errors"].as_array().cloned().unwrap_or_default();
        if errs.len() != 16 {
            return err("idl", format!("the IDL lists {} errors", errs.len()));
        }
        for e in &errs {
            let code = e["code"].as_u64().unwrap_or(u64::MAX) as usize;
            let Some((name, msg)) = ERRORS.get(code) else { return err("idl", format!("the IDL lists code {code}")) };
            if norm(e["name"].as_str().unwrap_or("")) != norm(name) || e["message"].as_str() != Some(msg) {
                return err("idl", format!("the IDL says code {code} is {} ({}), the program {name} ({msg})", e["name"], e["message"]));
            }
        }
        let mut codes: Vec<u64> = errs.iter().filter_map(|e| e["code"].as_u64()).collect();
        codes.sort();
        codes.dedup();
        if codes.len() != 16 {
            return err("idl", "the IDL lists a code twice".into());
        }
        let ts = std::fs::read_to_string("/repo/clients/js/src/generated/errors/tokenWrap.ts").map_err(|e| ("client".to_string(), e.to_string()))?;
        let mut n = 0;
        for l in ts.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("export const TOKEN_WRAP_ERROR__") {
                let mut it = r.splitn(2, '=');
                let name = it.next().unwrap_or("").trim().to_string();
                let v = it.next().unwrap_or("").split(';').next().unwrap_or("").trim().to_string();
                let code = u32::from_str_radix(v.trim_start_matches("0x"), if v.starts_with("0x") { 16 } else { 10 }).unwrap_or(u32::MAX);
                match ERRORS.get(code as usize) {
                    Some((want, _)) if norm(want) == norm(&name) => n += 1,
                    other => return err("client", format!("the JS client says {name} is {code}; the program has {other:?} there")),
                }
            } else if let Some(r) = l.strip_prefix("[TOKEN_WRAP_ERROR__") {
                let mut it = r.splitn(2, "]:");
                let name = it.next().unwrap_or("").to_string();
                let msg = it.next().unwrap_or("").trim().trim_end_matches(',').trim_matches(|c| "`'\"".contains(c)).to_string();
                if !ERRORS.iter().any(|(k, m)| norm(k) == norm(&name) && *m == msg) {
                    return err("client", format!("the JS client explains {name} as {msg:?}"));
                }
                n += 100;
            }
        }
        if n != 16 + 1600 {
            return err("client", format!("the JS client lists {} errors and {} messages", n % 100, n / 100));
        }
        Ok(())
    })
}

/// A world and an instruction that deserve exactly one documented error.
fn stage(vm: &mut Vm, a: &Arena, w: &mut World, s: u8, pair: usize) -> (Instruction, u32) {
    let live = [0usize, 1, 2, 3, 4, 5, 8, 9];
    let p = a.pairs[live[pair % 8]].clone();
    let t22 = a.pairs[[2, 3, 4, 5][pair % 4]].clone();
    let m1 = [a.pairs[2].clone(), a.pairs[3].clone()];
    let sync = |p: &Pair, extra: &[Pubkey]| if p.wprog == SPL { ix_sync_spl(p, extra) } else { ix_sync22(p, extra) };
    let other = key("errors-other", pair as u64);
    // where mint 1's metadata pointer points
    let repoint = |w: &mut World, k: Pubkey| {
        let d = &mut w.a.get_mut(&a.mints[1].k).unwrap().data;
        let at = (166..d.len() - 68).find(|o| d[*o..*o + 4] == [18, 0, 64, 0]).unwrap();
        d[at + 36..at + 68].copy_from_slice(k.as_ref());
    };
    match s {
        0 => {
            let mut ix = genuine(a, if pair % 2 == 0 { Kind::Wrap } else { Kind::Unwrap }, pair / 2, 1, 5);
            ix.data[1..9].copy_from_slice(&[0; 8]);
            (ix, 2)
        }
        1 => {
            // its escrow is someone else's token account now
            let d = &mut w.a.get_mut(&p.escrow).unwrap().data;
            d[32..64].copy_from_slice(other.as_ref());
            (ix_wrap(&p, acct_of(1, &p.wmint), acct_of(1, &p.umint), rs(mallory()), &[], 5), 4)
        }
        2 => {
            w.a.get_mut(&p.wmint).unwrap().owner = if pair % 3 == 0 { MOCK_META } else if p.wprog == SPL { T22 } else { SPL };
            (ix_create_mint(&p, true), 5)
        }
        3 => {
            w.a.get_mut(&p.backptr).unwrap().owner = if pair % 2 == 0 { MOCK_META } else { SYS };
            (ix_create_mint(&p, true), 6)
        }
        4 => {
            w.a.get_mut(&t22.escrow).unwrap().data[64..72].copy_from_slice(&[0; 8]);
            (ix_close_stuck(&t22, actor(pair)), 8)
        }
        5 => {
            // somebody else's record
            let p = &a.pairs[pair % 2];
            (sync(p, &[metaplex_pda(&a.mints[[2, 3, 4][pair % 3]].k)]), 10)
        }
        6 => {
            repoint(w, Pubkey::default());
            (sync(&m1[pair % 2], &[metaplex_pda(&a.mints[1].k)]), 12)
        }
        7 => {
            repoint(w, other);
            w.put(other, MOCK_META, vm.rent(10), vec![0; 10]);
            (sync(&m1[pair % 2], &[key("external-metadata", 7), MOCK_META]), 13)
        }
        8 => {
            repoint(w, other);
            w.put(other, MOCK_META, vm.rent(10), vec![1; 10]);
            (sync(&m1[pair % 2], &[other, MOCK_META]), 14)
        }
        9 => {
            let mut ix = genuine(a, [Kind::Wrap, Kind::Unwrap, Kind::Sync22, Kind::SyncSpl, Kind::Close][pair % 5], pair / 5, 1, 5);
            let at = [2, 2, 1, 1, 4][pair % 5];
            ix.accounts[at].pubkey = other;
            (ix, 3)
        }
        10 => {
            let mut ix = genuine(a, [Kind::Wrap, Kind::Unwrap, Kind::Close][pair % 3], pair / 3, 1, 5);
            let at = [7, 0, 0][pair % 3];
            let real = w.a[&ix.accounts[at].pubkey].clone();
            w.a.insert(other, real);
            ix.accounts[at].pubkey = other;
            (ix, 7)
        }
        _ => {
            let mut ix = genuine(a, [Kind::Create, Kind::CreateAgain, Kind::SyncSpl][pair % 3], pair / 3, 1, 5);
            let at = [1, 1, 0][pair % 3];
            ix.accounts[at].pubkey = other;
            (ix, [1, 1, 10][pair % 3])
        }
    }
}

fn builtin(e: &InstructionError) -> Option<&'static str> {
    use InstructionError as E;
    Some(match e {
        E::InvalidArgument => "InvalidArgument",
        E::InvalidInstructionData => "InvalidInstructionData",
        E::InvalidAccountData => "InvalidAccountData",
        E::AccountDataTooSmall => "AccountDataTooSmall",
        E::InsufficientFunds => "InsufficientFunds",
        E::IncorrectProgramId => "IncorrectProgramId",
        E::MissingRequiredSignature => "MissingRequiredSignature",
        E::AccountAlreadyInitialized => "AccountAlreadyInitialized",
        E::UninitializedAccount => "UninitializedAccount",
        E::NotEnoughAccountKeys => "NotEnoughAccountKeys",
        E::AccountBorrowFailed => "AccountBorrowFailed",
        E::InvalidSeeds => "InvalidSeeds",
        E::AccountNotRentExempt => "AccountNotRentExempt",
        E::IllegalOwner => "IllegalOwner",
        E::InvalidAccountOwner => "InvalidAccountOwner",
        E::ArithmeticOverflow => "ArithmeticOverflow",
        E::Immutable => "Immutable",
        E::IncorrectAuthority => "IncorrectAuthority",
        _ => return None,
    })
}

impl Prop for C22 {
    type Case = ErrCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "the executed instruction was refused by the program itself (not by a program it called)"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 100_000 } else { 3_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ErrCase> {
        let code = prop_oneof![3 => 0u32..20, 1 => any::<u32>(), 1 => prop::sample::select(vec![u32::MAX, 255, 256, 257, 65536, 1 << 31])];
        let i = || any::<u8>();
        let mu = prop_oneof![
            4 => (i(), any::<u16>()).prop_map(|(a, b)| Mutation::Replace(a, b)),
            3 => (i(), i(), i()).prop_map(|(a, b, c)| Mutation::Role(a, b, c)),
            1 => (i(), i()).prop_map(|(a, b)| Mutation::Swap(a, b)),
            1 => i().prop_map(Mutation::Unsign),
            1 => i().prop_map(Mutation::Truncate),
            1 => i().prop_map(Mutation::Retag),
            1 => Just(Mutation::Amount(0)),
        ];
        (code, prop::sample::select(KINDS.to_vec()), any::<u8>(), prop_oneof![5 => 1u64..1000, 1 => Just(0u64)], vec(mu, 0..3), prop::option::weighted(0.4, (0u8..12, any::<u8>())))
            .prop_map(|(code, kind, pair, amount, muts, stage)| ErrCase { code, kind, pair, amount, muts, stage })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &ErrCase, st: &mut Stats) -> Result<(), Violation> {
        if let Err((s, m)) = published() {
            return viol(s, m.clone());
        }
        // codes
        match (TokenWrapError::try_from(c.code), ERRORS.get(c.code as usize)) {
            (Ok(e), Some((name, msg))) => {
                if format!("{e:?}") != *name || e.to_string() != *msg {
                    return viol("meaning", format!("code {} is {e:?} ({e}), documented {name} ({msg})", c.code));
                }
                if e.to_str() != format!("Error: {name}") {
                    return viol("text", format!("{e:?} logs {:?}", e.to_str()));
                }
                let pe: ProgramError = e.clone().into();
                if pe != ProgramError::Custom(c.code) {
                    return viol("code", format!("{e:?} becomes {pe:?}, documented Custom({})", c.code));
                }
                if pe.to_str::<TokenWrapError>() != format!("Error: {name}") {
                    return viol("text", format!("{pe:?} logs {:?}", pe.to_str::<TokenWrapError>()));
                }
            }
            (Err(e), None) => {
                st.hit("unknown code refused");
                if e != ProgramError::InvalidArgument {
                    return viol("unknown", format!("unknown code {} is refused with {e:?}", c.code));
                }
            }
            (got, want) => return viol("range", format!("code {} converts to {got:?}, documented {want:?}", c.code)),
        }
        // a failing transaction
        let vm = &mut vms[0];
        let a = arena(vm);
        let mut w = a.w.clone();
        let (ix, due) = match c.stage {
            Some((s, p)) => {
                let (ix, code) = stage(vm, &a, &mut w, s, p as usize);
                (ix, Some(code))
            }
            None => {
                let mut ix = genuine(&a, c.kind, c.pair as usize, 1, c.amount);
                for m in &c.muts {
                    mutate(&a, &mut ix, m);
                }
                (ix, None)
            }
        };
        let r = w.exec(vm, &ix);
        if let Some(code) = due {
            if r != Err(InstructionError::Custom(code)) {
                return viol("due", format!("stage {:?} calls for {} ({code}) and gets {r:?}: {}", c.stage, ERRORS[code as usize].0, tail_logs(vm)));
            }
        }
        let Err(e) = r else {
            st.hit("accepted");
            return Ok(());
        };
        let logs = vm.logs();
        let failed: Vec<&String> = logs.iter().filter(|l| l.contains(" failed: ")).collect();
        if failed.len() != 1 || !failed[0].starts_with(&format!("Program {TW} failed")) {
            st.hit("refused inside a called program");
            return Ok(());
        }
        st.nontrivial = true;
        let want = match &e {
            InstructionError::Custom(n) => {
                st.hit(format!("refused with custom code {n}"));
                match ERRORS.get(*n as usize) {
                    Some((name, _)) => name.to_string(),
                    None => return viol("undocumented", format!("refused with custom code {n}: {}", tail_logs(vm))),
                }
            }
            e => match builtin(e) {
                Some(n) => {
                    st.hit(format!("refused with {n}"));
                    n.to_string()
                }
                None => {
                    st.hit(format!("refused with {e:?}"));
                    return Ok(());
                }
            },
        };
        let said = logs.iter().filter_map(|l| l.strip_prefix("Program log: ")).next_back().unwrap_or("");
        if said != format!("Error: {want}") {
            // the runtime can refuse what the program accepted
            let accepted = !logs.iter().any(|l| l.starts_with("Program log: Error: "));
            if accepted && !matches!(e, InstructionError::Custom(_)) {
                st.hit("refused without a log text");
            }
            return viol("log", format!("{e:?} is logged as {said:?}: {}", tail_logs(vm)));
        }
        Ok(())
    }
}
