//! C15: the instruction encoding.
use {
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    solana_instruction::{error::InstructionError, AccountMeta, Instruction},
    solana_program_error::ProgramError,
    solana_pubkey::Pubkey,
    spl_token_wrap::instruction::TokenWrapInstruction as I,
    twchain::{arena::*, engine::*, vm::*},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    Create(bool),
    Wrap(u64),
    Unwrap(u64),
    Close,
    Sync22,
    SyncSpl,
    Pointer([u8; 32]),
}
impl Val {
    fn lib(&self) -> I {
        match self {
            Val::Create(b) => I::CreateMint { idempotent: *b },
            Val::Wrap(x) => I::Wrap { amount: *x },
            Val::Unwrap(x) => I::Unwrap { amount: *x },
            Val::Close => I::CloseStuckEscrow,
            Val::Sync22 => I::SyncMetadataToToken2022,
            Val::SyncSpl => I::SyncMetadataToSplToken,
            Val::Pointer(k) => I::SetCanonicalPointer { program_id: Pubkey::new_from_array(*k) },
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Create(b) => vec![0, *b as u8],
            Val::Wrap(x) => [vec![1], x.to_le_bytes().to_vec()].concat(),
            Val::Unwrap(x) => [vec![2], x.to_le_bytes().to_vec()].concat(),
            Val::Close => vec![3],
            Val::Sync22 => vec![4],
            Val::SyncSpl => vec![5],
            Val::Pointer(k) => [vec![6], k.to_vec()].concat(),
        }
    }
}
/// The documented grammar.
fn parse(d: &[u8]) -> Option<Val> {
    Some(match (d.first()?, &d[1..]) {
        (0, [b @ (0 | 1)]) => Val::Create(*b == 1),
        (1, r) if r.len() == 8 => Val::Wrap(u64::from_le_bytes(r.try_into().unwrap())),
        (2, r) if r.len() == 8 => Val::Unwrap(u64::from_le_bytes(r.try_into().unwrap())),
        (3, []) => Val::Close,
        (4, []) => Val::Sync22,
        (5, []) => Val::SyncSpl,
        (6, r) if r.len() == 32 => Val::Pointer(r.try_into().unwrap()),
        _ => return None,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CodecCase {
    pub val: Val,
    pub data: Vec<u8>,
    /// account list on chain: 0 none, otherwise those of a genuine instruction
    pub accounts: u8,
}
pub struct C15;

fn val() -> BoxedStrategy<Val> {
    let n = || prop_oneof![3 => any::<u64>(), 1 => prop::sample::select(vec![0, 1, 255, 256, u64::MAX, 1 << 63, 1 << 32]), 1 => (0u32..64).prop_map(|s| 1u64 << s)];
    prop_oneof![
        1 => any::<bool>().prop_map(Val::Create),
        3 => n().prop_map(Val::Wrap),
        3 => n().prop_map(Val::Unwrap),
        1 => Just(Val::Close),
        1 => Just(Val::Sync22),
        1 => Just(Val::SyncSpl),
        3 => any::<[u8; 32]>().prop_map(Val::Pointer),
    ]
    .boxed()
}
fn data() -> BoxedStrategy<Vec<u8>> {
    let lens = prop_oneof![3 => 0usize..12, 1 => 30usize..36, 1 => 0usize..80];
    prop_oneof![
        // near-encodings: cut, extended, a byte changed
        4 => (val(), 0u8..5, any::<u8>(), any::<u8>(), vec(any::<u8>(), 1..40)).prop_map(|(v, how, i, b, tail)| {
            let mut d = v.bytes();
            let i = i as usize % d.len();
            match how {
                0 => d.truncate(i),
                1 => d.extend(tail),
                2 => d[i] = b,
                3 => d.extend(std::iter::repeat_n(0, tail.len())),
                _ => d[0] = b,
            }
            d
        }),
        3 => (0u8..9, lens, any::<u8>()).prop_flat_map(|(t, n, _)| vec(any::<u8>(), n).prop_map(move |mut r| { r.insert(0, t); r })),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| vec![a, b]),
        1 => (0u8..8, any::<u8>()).prop_map(|(a, b)| vec![a, b]),
        1 => Just(vec![]),
        1 => any::<u8>().prop_map(|a| vec![a]),
        1 => vec(any::<u8>(), 0..64),
        1 => (0u8..8, 100usize..1100).prop_map(|(t, n)| { let mut v = vec![0; n]; v[0] = t; v }),
        1 => val().prop_map(|v| v.bytes()),
    ]
    .boxed()
}

impl Prop for C15 {
    type Case = CodecCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "the byte string is no documented encoding, or the value carries data"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 200_000 } else { 6_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CodecCase> {
        (val(), data(), any::<u8>()).prop_map(|(val, data, accounts)| CodecCase { val, data, accounts }).boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &CodecCase, st: &mut Stats) -> Result<(), Violation> {
        // values
        let (v, b) = (c.val.lib(), c.val.bytes());
        if v.pack() != b {
            return viol("encoding", format!("{v:?} packs to {:?}, documented {b:?}", v.pack()));
        }
        match I::unpack(&b) {
            Ok(x) if x == v => {}
            x => return viol("decoding", format!("the encoding of {v:?} unpacks to {x:?}")),
        }
        // strings
        let d = &c.data;
        let want = parse(d);
        st.hit(match &want {
            None => format!("no encoding, tag {}", d.first().map(|t| if *t < 7 { t.to_string() } else { "other".into() }).unwrap_or("none".into())),
            Some(_) => "an encoding".into(),
        });
        st.nontrivial = want.is_none() || d.len() > 1;
        match (I::unpack(d), &want) {
            (Ok(x), Some(w)) if x == w.lib() => {
                if x.pack() != *d {
                    return viol("ambiguous", format!("{d:?} unpacks to {x:?}, which packs to {:?}", x.pack()));
                }
            }
            (Err(ProgramError::InvalidInstructionData), None) => {}
            (got, _) => return viol("strictness", format!("{d:?} unpacks to {got:?}, documented {want:?}")),
        }
        // on chain
        let vm = &mut vms[0];
        let a = arena(vm);
        let mut w = a.w.clone();
        let accounts: Vec<AccountMeta> = match c.accounts % 12 {
            n @ 0..8 => genuine(&a, KINDS[n as usize], (c.accounts / 12) as usize, 1, 0).accounts,
            _ => vec![],
        };
        let n = accounts.len();
        let ix = Instruction { program_id: TW, accounts, data: d.clone() };
        let r = w.exec(vm, &ix);
        let invalid = r == Err(InstructionError::InvalidInstructionData);
        if invalid && want.is_some() {
            // the program decodes it, so some other account must have refused its own data
            if !vm.logs().iter().any(|l| l.contains("invoke [2]")) {
                return viol("on-chain-refused", format!("{d:?} with {n} accounts is refused as invalid data, documented {want:?}"));
            }
        }
        if !invalid && want.is_none() {
            return viol("on-chain-accepted", format!("{d:?} with {n} accounts gives {r:?}"));
        }
        if want.is_some() && n == 0 && r.is_ok() {
            return viol("no-accounts", format!("{d:?} without accounts gives {r:?}"));
        }
        Ok(())
    }
}
