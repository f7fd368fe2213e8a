//! C26: the JavaScript client's and the interface description's instructions,
//! addresses, accounts and errors are the program's.
use {
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    serde_json::{json, Value},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::sync::OnceLock,
    twchain::{engine::*, js::*, vm::*, world::*},
};

/// Accounts of an instruction: name, writable, what stands in when it is left out.
enum Or {
    Needed,
    Fixed(Pubkey),
    /// the program's own address, which stands for nothing
    Nothing,
}
use Or::*;
struct Spec {
    name: &'static str,
    accounts: &'static [(&'static str, bool, Or)],
}
static SPECS: [Spec; 6] = [
    Spec {
        name: "createMint",
        accounts: &[
            ("wrappedMint", true, Needed),
            ("backpointer", true, Needed),
            ("unwrappedMint", false, Needed),
            ("systemProgram", false, Fixed(SYS)),
            ("wrappedTokenProgram", false, Needed),
        ],
    },
    Spec {
        name: "wrap",
        accounts: &[
            ("recipientWrappedTokenAccount", true, Needed),
            ("wrappedMint", true, Needed),
            ("wrappedMintAuthority", false, Needed),
            ("unwrappedTokenProgram", false, Needed),
            ("wrappedTokenProgram", false, Needed),
            ("unwrappedTokenAccount", true, Needed),
            ("unwrappedMint", false, Needed),
            ("unwrappedEscrow", true, Needed),
            ("transferAuthority", false, Needed),
        ],
    },
    Spec {
        name: "unwrap",
        accounts: &[
            ("unwrappedEscrow", true, Needed),
            ("recipientUnwrappedToken", true, Needed),
            ("wrappedMintAuthority", false, Needed),
            ("unwrappedMint", false, Needed),
            ("wrappedTokenProgram", false, Needed),
            ("unwrappedTokenProgram", false, Needed),
            ("wrappedTokenAccount", true, Needed),
            ("wrappedMint", true, Needed),
            ("transferAuthority", false, Needed),
        ],
    },
    Spec {
        name: "closeStuckEscrow",
        accounts: &[
            ("escrow", true, Needed),
            ("destination", true, Needed),
            ("unwrappedMint", false, Needed),
            ("wrappedMint", false, Needed),
            ("wrappedMintAuthority", false, Needed),
            ("token2022Program", false, Fixed(T22)),
        ],
    },
    Spec {
        name: "syncMetadataToToken2022",
        accounts: &[
            ("wrappedMint", true, Needed),
            ("wrappedMintAuthority", false, Needed),
            ("unwrappedMint", false, Needed),
            ("token2022Program", false, Fixed(T22)),
            ("sourceMetadata", false, Nothing),
            ("ownerProgram", false, Nothing),
        ],
    },
    Spec {
        name: "syncMetadataToSplToken",
        accounts: &[
            ("metaplexMetadata", true, Needed),
            ("wrappedMintAuthority", true, Needed),
            ("wrappedMint", false, Needed),
            ("unwrappedMint", false, Needed),
            ("metaplexProgram", false, Fixed(MPL)),
            ("systemProgram", false, Fixed(SYS)),
            ("rentSysvar", false, Fixed(RENT)),
            ("sourceMetadata", false, Nothing),
            ("ownerProgram", false, Nothing),
        ],
    },
];
fn pascal(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amount {
    Big(u64),
    Num(u64),
    /// beyond 64 bits
    Over(u64),
    Negative(u64),
}
impl Amount {
    fn json(&self) -> Value {
        match self {
            Amount::Big(n) => big(n),
            Amount::Num(n) => json!(n),
            Amount::Over(n) => big(u64::MAX as u128 + 1 + *n as u128),
            Amount::Negative(n) => big(-1 - (*n as i128)),
        }
    }
    fn get(&self) -> Option<u64> {
        match self {
            Amount::Big(n) | Amount::Num(n) => Some(*n),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BuildJs {
    pub ix: u8,
    pub keys: Vec<[u8; 32]>,
    /// accounts with a default that are left out
    pub omit: u16,
    pub signs: bool,
    pub extras: Vec<[u8; 32]>,
    /// extras given as an empty list rather than not at all
    pub empty: bool,
    pub amount: Amount,
    pub idem: Option<bool>,
    pub program: Option<[u8; 32]>,
    /// 0 the function, 1 the plugin
    pub via: u8,
    /// read back with so many accounts fewer and bytes fewer or more
    pub drop: u8,
    pub less: u8,
    pub more: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Back {
    One,
    Maybe,
    Seeds,
    MaybeSeeds,
    All,
    AllMaybe,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum JsCase {
    Build(BuildJs),
    Pda { which: u8, keys: [[u8; 32]; 2], program: Option<[u8; 32]> },
    Identify { data: Vec<u8>, bare: bool },
    Backpointer { how: Back, entries: Vec<(u8, [u8; 32])>, broken: bool },
    Error { code: u32, index: u8, programs: Vec<bool>, want: Option<u32>, custom: bool },
}
pub struct C26;

fn pk(b: &[u8; 32]) -> Pubkey {
    Pubkey::new_from_array(*b)
}
fn keys() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        8 => any::<[u8; 32]>(),
        2 => (0u8..40, any::<[u8; 32]>()).prop_map(|(z, mut k)| {
            // leading zero bytes: addresses of fewer characters
            k[..(z as usize).min(32)].fill(0);
            k
        }),
        1 => prop::sample::select(vec![SPL, T22, SYS, MPL, TW, RENT]).prop_map(|k| k.to_bytes())
    ]
    .boxed()
}

fn idls() -> &'static Vec<(&'static str, Value)> {
    static I: OnceLock<Vec<(&'static str, Value)>> = OnceLock::new();
    I.get_or_init(|| {
        let read = |p: &std::path::Path| serde_json::from_str::<Value>(&std::fs::read_to_string(p).ok()?).ok();
        let mut v = vec![("idl.json", read(std::path::Path::new("/repo/idl.json")).expect("idl.json is JSON"))];
        if let Some(x) = read(&verif_dir().join("build/js/idl.json")) {
            v.push(("idl.ts", x));
        }
        v
    })
}
fn named<'a>(list: &'a Value, name: &str) -> Option<&'a Value> {
    list.as_array()?.iter().find(|x| x["name"] == name)
}
fn number(t: &Value, n: u64) -> Option<Vec<u8>> {
    let len = match t["format"].as_str()? {
        "u8" => 1,
        "u16" => 2,
        "u32" => 4,
        "u64" => 8,
        _ => return None,
    };
    let mut b = n.to_le_bytes()[..len].to_vec();
    if t["endian"] == "be" {
        b.reverse();
    }
    Some(b)
}
/// What a client generated from the description sends.
fn described(idl: &Value, name: &str, given: &dyn Fn(&str) -> Option<Pubkey>, signs: bool, extras: &[Pubkey], args: &dyn Fn(&str) -> Option<u64>, program: Pubkey) -> Result<Instruction, String> {
    let i = named(&idl["program"]["instructions"], name).ok_or("no such instruction")?;
    let mut accounts = vec![];
    for a in i["accounts"].as_array().ok_or("no accounts")? {
        let n = a["name"].as_str().unwrap_or("");
        let v = given(n);
        let is_signer = match &a["isSigner"] {
            Value::Bool(b) => *b,
            _ => signs,
        };
        let is_writable = a["isWritable"] == true;
        match v {
            Some(pubkey) => accounts.push(AccountMeta { pubkey, is_signer, is_writable }),
            None if a["defaultValue"]["kind"] == "publicKeyValueNode" => {
                accounts.push(AccountMeta { pubkey: pubkey(&a["defaultValue"]["publicKey"]).ok_or("not an address")?, is_signer, is_writable })
            }
            None if a["isOptional"] == true => match i["optionalAccountStrategy"].as_str() {
                Some("omitted") => {}
                _ => accounts.push(AccountMeta { pubkey: program, is_signer: false, is_writable: false }),
            },
            None => return Err(format!("{n} may not be left out")),
        }
    }
    if !extras.is_empty() {
        let r = i["remainingAccounts"].as_array().and_then(|r| r.first()).ok_or("no remaining accounts")?;
        for e in extras {
            accounts.push(AccountMeta { pubkey: *e, is_signer: r["isSigner"] == true, is_writable: r["isWritable"] == true });
        }
    }
    let mut data = vec![];
    for a in i["arguments"].as_array().ok_or("no arguments")? {
        let n = a["name"].as_str().unwrap_or("");
        let d = &a["defaultValue"];
        let v = if a["defaultValueStrategy"] == "omitted" { None } else { args(n) };
        let v = v.or(d["number"].as_u64()).or(d["boolean"].as_bool().map(|b| b as u64)).ok_or(format!("{n} has no value"))?;
        let t = if a["type"]["kind"] == "booleanTypeNode" { &a["type"]["size"] } else { &a["type"] };
        data.extend(number(t, v).ok_or(format!("{n} has an unknown type"))?);
    }
    Ok(Instruction { program_id: program, accounts, data })
}

impl Prop for C26 {
    type Case = JsCase;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "an instruction was built and read back, an address derived, data identified, an account fetched or an error recognised"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["@solana/kit and the token and system clients are stand-ins written from their documentation; the client's own TypeScript runs as it is"]
    }
    fn deployments(&self) -> Vec<Deployment> {
        vec![]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 3_000_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<JsCase> {
        let amount = || {
            prop_oneof![
                6 => any::<u64>().prop_map(Amount::Big),
                1 => (0u32..64).prop_map(|b| Amount::Big(1 << b)),
                3 => (0u64..=(1 << 53) - 1).prop_map(Amount::Num),
                1 => any::<u64>().prop_map(Amount::Over),
                1 => Just(Amount::Over(0)),
                1 => any::<u64>().prop_map(Amount::Negative),
            ]
        };
        let program = || prop::option::weighted(0.3, keys());
        let build = (
            (0u8..6, vec(keys(), 9), any::<u16>(), any::<bool>(), prop_oneof![2 => vec(keys(), 0), 3 => vec(keys(), 1..12)], any::<bool>()),
            (amount(), any::<Option<bool>>(), program(), prop_oneof![3 => Just(0u8), 1 => Just(1u8)]),
            (prop_oneof![5 => Just(0u8), 1 => 1u8..12], prop_oneof![5 => Just(0u8), 1 => 1u8..10], prop_oneof![3 => vec(any::<u8>(), 0), 1 => vec(any::<u8>(), 1..20)]),
        )
            .prop_map(|((ix, keys, omit, signs, extras, empty), (amount, idem, program, via), (drop, less, more))| {
                JsCase::Build(BuildJs { ix, keys, omit, signs, extras, empty, amount, idem, program, via, drop, less, more })
            });
        let back = || prop_oneof![Just(Back::One), Just(Back::Maybe), Just(Back::Seeds), Just(Back::MaybeSeeds), Just(Back::All), Just(Back::AllMaybe)];
        prop_oneof![
            10 => build,
            3 => (0u8..3, [keys(), keys()], program()).prop_map(|(which, keys, program)| JsCase::Pda { which, keys, program }),
            2 => (vec(prop_oneof![2 => 0u8..8, 1 => any::<u8>()], 0..12), any::<bool>()).prop_map(|(data, bare)| JsCase::Identify { data, bare }),
            2 => (back(), vec((prop_oneof![4 => Just(32u8), 1 => Just(255u8), 1 => 0u8..80], keys()), 1..5), prop::bool::weighted(0.1)).prop_map(|(how, entries, broken)| JsCase::Backpointer { how, entries, broken }),
            2 => (prop_oneof![8 => 0u32..20, 1 => any::<u32>()], 0u8..3, vec(any::<bool>(), 1..4), prop::option::of(0u32..20), prop::bool::weighted(0.85)).prop_map(|(code, index, programs, want, custom)| {
                // mostly the code that occurred
                let want = want.map(|w| if w % 2 == 0 { code } else { w });
                JsCase::Error { code, index, programs, want, custom }
            }),
        ]
        .boxed()
    }
    fn run(&self, _: &mut [Vm], c: &JsCase, st: &mut Stats) -> Result<(), Violation> {
        match c {
            JsCase::Build(b) => build(b, st),
            JsCase::Pda { which, keys, program } => {
                let prog = program.map_or(TW, |p| pk(&p));
                let (f, idl, seeds, vars): (_, _, Vec<&[u8]>, Vec<(&str, Pubkey)>) = match which {
                    0 => ("findWrappedMintPda", "wrappedMint", vec![b"mint", &keys[0], &keys[1]], vec![("unwrappedMint", pk(&keys[0])), ("wrappedTokenProgram", pk(&keys[1]))]),
                    1 => ("findWrappedMintAuthorityPda", "wrappedMintAuthority", vec![b"authority", &keys[0]], vec![("wrappedMint", pk(&keys[0]))]),
                    _ => ("findBackpointerPda", "backpointer", vec![b"backpointer", &keys[0]], vec![("wrappedMint", pk(&keys[0]))]),
                };
                let want = Pubkey::find_program_address(&seeds, &prog);
                let args: Value = vars.iter().map(|(n, k)| (n.to_string(), b58(k))).collect::<serde_json::Map<_, _>>().into();
                let got = ask(&json!({"op": "pda", "fn": f, "seeds": args, "program": program_arg(program.map(|p| pk(&p)))}));
                if got != Ok(json!([want.0.to_string(), want.1])) {
                    return viol("address", format!("{f}({args}) of program {prog} gives {got:?}, the program uses {want:?}"));
                }
                for (file, i) in idls() {
                    let p = named(&i["program"]["pdas"], idl).ok_or(()).or_else(|_| viol("idl-address", format!("{file} does not describe {idl}")))?;
                    let parts: Option<Vec<Vec<u8>>> = p["seeds"].as_array().and_then(|s| {
                        s.iter()
                            .map(|s| match s["kind"].as_str()? {
                                "constantPdaSeedNode" => Some(s["value"]["string"].as_str()?.as_bytes().to_vec()),
                                _ => Some(vars.iter().find(|v| s["name"] == v.0)?.1.to_bytes().to_vec()),
                            })
                            .collect()
                    });
                    let Some(parts) = parts else { return viol("idl-address", format!("{file}: the seeds of {idl} are not understood")) };
                    let refs: Vec<&[u8]> = parts.iter().map(|x| x.as_slice()).collect();
                    if refs != seeds {
                        return viol("idl-address", format!("{file}: the seeds of {idl} give another address than the program's"));
                    }
                }
                st.nontrivial = true;
                st.hit(format!("address {idl}{}", if program.is_some() { " of another program" } else { "" }));
                Ok(())
            }
            JsCase::Identify { data, bare } => {
                let got = ask(&json!({"op": "identify", "data": hex(data), "bare": bare}));
                let want = data.first().and_then(|t| SPECS.get(*t as usize));
                match (&got, want) {
                    (Ok(v), Some(s)) if *v == json!([data[0], pascal(s.name)]) => st.hit("identified"),
                    (Err(_), None) => st.hit("not identified"),
                    _ => return viol("identify", format!("{data:?} is identified as {got:?}, it is {:?}", want.map(|s| s.name))),
                }
                st.nontrivial = true;
                Ok(())
            }
            JsCase::Backpointer { how, entries, broken } => back(how, entries, *broken, st),
            JsCase::Error { code, index, programs, want, custom } => {
                // messages
                let lib = spl_token_wrap::error::TokenWrapError::try_from(*code).ok().map(|e| e.to_string());
                let got = ask(&json!({"op": "message", "code": code}));
                let got = got.ok().and_then(|v| v.as_str().map(|s| s.to_string()));
                if lib.is_some() && got != lib {
                    return viol("message", format!("error {code} is {got:?} to the client, {lib:?} to the program"));
                }
                for (file, i) in idls() {
                    let d = i["program"]["errors"].as_array().and_then(|e| e.iter().find(|e| e["code"] == *code));
                    let d = d.and_then(|e| e["message"].as_str().map(|s| s.to_string()));
                    if d != lib {
                        return viol("message", format!("error {code} is {d:?} in {file}, {lib:?} in the program"));
                    }
                }
                let ps: Vec<Pubkey> = programs.iter().map(|t| if *t { TW } else { T22 }).collect();
                let is = ask(&json!({"op": "isError", "custom": custom, "code": code, "index": index, "programs": ps.iter().map(b58).collect::<Vec<_>>(), "want": want}));
                let ours = *custom && programs.get(*index as usize) == Some(&true) && want.is_none_or(|w| w == *code);
                if is != Ok(json!(ours)) {
                    return viol("is-error", format!("error {code} of instruction {index} of {programs:?}, asked for {want:?}: {is:?}"));
                }
                st.nontrivial = true;
                st.hit(if lib.is_some() { "error of the program" } else { "unknown error" });
                Ok(())
            }
        }
    }
}

fn build(b: &BuildJs, st: &mut Stats) -> Result<(), Violation> {
    let s = &SPECS[b.ix as usize % 6];
    let custom = b.program.map(|p| pk(&p)).filter(|_| b.via == 0);
    let program = custom.unwrap_or(TW);
    let moves = b.ix == 1 || b.ix == 2;
    let mut input = serde_json::Map::new();
    let mut metas = vec![];
    let mut signers: Vec<Option<Pubkey>> = vec![];
    let mut given: Vec<Option<Pubkey>> = vec![];
    for (n, (name, writable, or)) in s.accounts.iter().enumerate() {
        let k = pk(&b.keys[n]);
        let left_out = !matches!(or, Needed) && b.omit >> n & 1 == 1;
        let signs = *name == "transferAuthority" && b.signs;
        let (k, writable) = match or {
            Fixed(d) if left_out => (*d, *writable),
            Nothing if left_out => (program, false),
            _ => {
                input.insert(name.to_string(), if signs { signer(&k) } else { b58(&k) });
                (k, *writable)
            }
        };
        given.push((!left_out).then_some(k));
        metas.push(AccountMeta { pubkey: k, is_signer: signs, is_writable: writable });
        signers.push(signs.then_some(k));
    }
    let fixed = metas.len();
    let extras: Vec<Pubkey> = if moves { b.extras.iter().map(pk).collect() } else { vec![] };
    let mut data = vec![b.ix % 6];
    let mut amount = Some(0);
    if moves {
        if !extras.is_empty() || b.empty {
            input.insert("multiSigners".into(), extras.iter().map(signer).collect());
        }
        for e in &extras {
            metas.push(rs(*e));
            signers.push(Some(*e));
        }
        input.insert("amount".into(), b.amount.json());
        amount = b.amount.get();
        data.extend(amount.unwrap_or(0).to_le_bytes());
    }
    if b.ix % 6 == 0 {
        if let Some(x) = b.idem {
            input.insert("idempotent".into(), json!(x));
        }
        data.push((b.idem == Some(true)) as u8);
    }
    let want = Instruction { program_id: program, accounts: metas, data };
    let input = Value::Object(input);
    let q = if b.via == 1 {
        json!({"op": "plugin", "fn": s.name, "input": input})
    } else {
        json!({"op": "build", "fn": format!("get{}Instruction", pascal(s.name)), "input": input, "program": program_arg(custom)})
    };
    let got = ask(&q);
    if amount.is_none() {
        if let Ok(v) = got {
            return viol("amount", format!("{} of an amount that is no u64 gives {v}: {input}", s.name));
        }
        st.nontrivial = true;
        st.hit(format!("{} of an impossible amount refused", s.name));
        return Ok(());
    }
    let v = match got {
        Ok(v) => v,
        Err(e) => return viol("build", format!("{} throws {e}: {input}", s.name)),
    };
    let Some((ix, sg)) = instruction(&v) else { return viol("build", format!("{}: not an instruction: {v}", s.name)) };
    if ix != want {
        return viol("instruction", format!("{}({input}): the client builds {ix:?}, the program takes {want:?}", s.name));
    }
    if sg != signers {
        return viol("signers", format!("{}({input}): attached signers {sg:?}, expected {signers:?}", s.name));
    }
    // the same by the description
    for (file, i) in idls() {
        if i["program"]["publicKey"] != TW.to_string() {
            return viol("idl", format!("{file} is of program {}", i["program"]["publicKey"]));
        }
        let get = |n: &str| s.accounts.iter().position(|a| a.0 == n).and_then(|p| given[p]);
        let args = |n: &str| match n {
            "amount" => amount,
            "idempotent" => b.idem.map(|x| x as u64),
            _ => None,
        };
        match described(i, s.name, &get, b.signs, &extras, &args, program) {
            Ok(d) if d == want => {}
            d => return viol("idl", format!("{file}: {}({input}) is described as {d:?}, the program takes {want:?}", s.name)),
        }
        // the discriminator a reader looks for
        let d = named(&i["program"]["instructions"], s.name).map(|x| &x["discriminators"][0]);
        if d.is_none_or(|d| d["name"] != "discriminator" || d["offset"] != 0) {
            return viol("idl", format!("{file}: the discriminator of {} is {d:?}", s.name));
        }
    }
    // read back
    let mut back = want.clone();
    let keep = back.accounts.len().saturating_sub(b.drop as usize);
    back.accounts.truncate(keep);
    let len = back.data.len().saturating_sub(b.less as usize);
    let cut = len < back.data.len();
    back.data.truncate(len);
    if !cut {
        back.data.extend(&b.more);
    }
    let mut q = from_instruction(&back);
    q["op"] = json!("parse");
    let generic = ask(&q);
    q["fn"] = json!(format!("parse{}Instruction", pascal(s.name)));
    let direct = ask(&q);
    let readable = keep >= fixed && !cut;
    for (how, got) in [("generically", &generic), ("directly", &direct)] {
        match got {
            Err(e) if readable => return viol("parse", format!("{} is not read {how}: {e}: {q}", s.name)),
            Err(_) => {}
            Ok(v) if !readable => return viol("parse", format!("{} with {keep} of {fixed} accounts and {len} bytes is read {how} as {v}", s.name)),
            Ok(v) => {
                for (n, (name, _, or)) in s.accounts.iter().enumerate() {
                    let a = &v["accounts"][*name];
                    let m = &want.accounts[n];
                    let absent = matches!(or, Nothing) && m.pubkey == program;
                    if absent && custom.is_some() {
                        continue; // read as an account, or as absent
                    }
                    // an account that happens to be the program's address reads as absent
                    let nothing = matches!(or, Nothing) && m.pubkey == TW;
                    if m.pubkey == TW && !nothing && a.is_null() {
                        continue; // no use of an account that has to be another
                    }
                    let right = if nothing { a.is_null() } else { pubkey(&a["address"]) == Some(m.pubkey) && a["role"] == (m.is_signer as u8 * 2 + m.is_writable as u8) };
                    if !right {
                        return viol("parse", format!("{name} of {} is read {how} as {a}, it is {m:?}", s.name));
                    }
                }
                let d = &v["data"];
                if d["discriminator"] != b.ix % 6 || (moves && d["amount"] != big(amount.unwrap())) || (b.ix % 6 == 0 && d["idempotent"] != (b.idem == Some(true))) {
                    return viol("parse", format!("the data of {} are read {how} as {d}, they are {:?}", s.name, want.data));
                }
                if pubkey(&v["programAddress"]) != Some(program) {
                    return viol("parse", format!("the program of {} is read {how} as {}", s.name, v["programAddress"]));
                }
            }
        }
    }
    if let Ok(v) = &generic {
        if v["instructionType"] != b.ix % 6 {
            return viol("parse", format!("{} is read as instruction {}", s.name, v["instructionType"]));
        }
    }
    let tag = ask(&json!({"op": "discriminators", "fns": [format!("get{}DiscriminatorBytes", pascal(s.name))]}));
    if tag != Ok(json!([hex(&[b.ix % 6])])) {
        return viol("discriminator", format!("the discriminator of {} is {tag:?}", s.name));
    }
    st.nontrivial = true;
    st.hit(format!("{}{}{}", s.name, if b.via == 1 { " by the plugin" } else { "" }, if readable { "" } else { ", not readable back" }));
    if !extras.is_empty() {
        st.hit("with multisig signers");
    }
    Ok(())
}

fn back(how: &Back, entries: &[(u8, [u8; 32])], broken: bool, st: &mut Stats) -> Result<(), Violation> {
    let n = matches!(how, Back::All | Back::AllMaybe).then_some(entries.len()).unwrap_or(1);
    let mint = key("c26-wrapped", 0);
    let (seeded, name) = match how {
        Back::Seeds => (true, "seeds"),
        Back::MaybeSeeds => (true, "maybeSeeds"),
        Back::One => (false, "one"),
        Back::Maybe => (false, "maybe"),
        Back::All => (false, "all"),
        Back::AllMaybe => (false, "allMaybe"),
    };
    let mut accounts = serde_json::Map::new();
    let mut addresses = vec![];
    let mut want: Vec<Option<Pubkey>> = vec![];
    let mut bad = broken;
    for (i, (len, k)) in entries.iter().take(n).enumerate() {
        let a = if seeded { backpointer(&mint) } else { key("c26-account", i as u64) };
        addresses.push(a);
        if *len == 255 {
            want.push(None);
            continue;
        }
        let mut d = k.to_vec();
        d.resize(*len as usize, 7);
        bad |= d.len() < 32;
        want.push(Some(pk(k)));
        accounts.insert(a.to_string(), json!({"data": base64(&d), "lamports": "1113600", "owner": TW.to_string()}));
    }
    let maybe = matches!(how, Back::Maybe | Back::MaybeSeeds | Back::AllMaybe);
    let fails = bad || (!maybe && want.iter().any(|w| w.is_none()));
    let world = json!({"accounts": accounts, "broken": if broken { vec![b58(&addresses[0])] } else { vec![] }, "rent": [0, 0]});
    let got = ask(&json!({"op": "backpointer", "how": name, "world": world, "addresses": addresses.iter().map(b58).collect::<Vec<_>>(), "mint": mint.to_string()}));
    let one = |i: usize| want[i].map_or(Value::Null, |k| json!([addresses[i].to_string(), k.to_string()]));
    let expected = if matches!(how, Back::All | Back::AllMaybe) { (0..n).map(one).collect() } else { one(0) };
    match &got {
        Err(_) if fails => {}
        Ok(v) if !fails && *v == expected => {}
        _ => return viol("backpointer", format!("{how:?} of {world} gives {got:?}, expected {}", if fails { "to fail".into() } else { expected.to_string() })),
    }
    let size = ask(&json!({"op": "backpointer", "how": "size", "world": world}));
    let lib = std::mem::size_of::<spl_token_wrap::state::Backpointer>();
    if size != Ok(json!(lib)) {
        return viol("size", format!("a backpointer takes {size:?} bytes to the client, {lib} to the program"));
    }
    for (file, i) in idls() {
        let a = named(&i["program"]["accounts"], "backpointer");
        if a.is_none_or(|a| a["size"] != lib || a["data"]["fields"][0]["name"] != "unwrappedMint" || a["data"]["fields"][0]["type"]["kind"] != "publicKeyTypeNode" || a["pda"]["name"] != "backpointer") {
            return viol("idl-account", format!("{file} describes the backpointer as {a:?}"));
        }
    }
    if let Some(k) = want[0] {
        let enc = ask(&json!({"op": "codec", "fn": "getBackpointerCodec", "value": {"unwrappedMint": k.to_string()}}));
        if enc != Ok(json!({"hex": hex(k.as_ref())})) {
            return viol("codec", format!("a backpointer to {k} is encoded as {enc:?}"));
        }
    }
    st.nontrivial = true;
    st.hit(format!("backpointer {name}: {}", if fails { "fails" } else { "found" }));
    Ok(())
}
fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3)
        .flat_map(|c| {
            let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            (0..4).map(move |i| if i <= c.len() { A[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' })
        })
        .collect()
}
