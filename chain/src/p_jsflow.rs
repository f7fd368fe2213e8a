//! C27: what the JavaScript client's helpers put together from the chain's state.
use {
    crate::{engine::*, js::*, lab::{mint_cfg, Focus}, meta::*, p_cli::*, p_create, p_sync::SyncLab, rpc::*, tok, vm::*, world::*},
    base64::{engine::general_purpose::STANDARD as B64, Engine},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    serde_json::{json, Map, Value},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetUp {
    pub cfg: MintCfg,
    /// the mint: 0 there, 1 absent
    pub state: u8,
    pub t22: bool,
    pub made: bool,
    /// lamports on the wrapped mint and backpointer: 0 none, 1 too few, 2 few, 3 enough
    pub fund: [(u8, u32); 2],
    /// 0 none, 1 made, 2 only lamports
    pub escrow: u8,
    pub idem: Option<bool>,
    /// a lookup that fails: the escrow's, the wrapped mint's, backpointer's, mint's or rent
    pub broken: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    /// signatures this one brings
    pub has: u16,
    /// order of its signature map, rotated
    pub rot: u8,
    /// 0 the same message, 1 a byte differs, 2 longer, 3 shorter
    pub differs: u8,
    pub at: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FlowCase {
    Move {
        m: Move,
        /// transfer authority: 0 omitted, 1 as a signer, 2 as an address
        auth: u8,
        /// recipient named although it is the default
        name: bool,
        num: bool,
        broken: Option<u8>,
    },
    Mint(SetUp),
    Escrow(SetUp),
    Offline { m: Move, extra: u8, as_signer: bool, num: bool, hash: [u8; 32], height: u64 },
    Combine { signers: u8, message: Vec<u8>, pad: u16, parts: Vec<Part>, hash: [u8; 32], height: u64 },
    Sync { kind: u8, start: u8, to_spl: bool, meta: Meta, give: u8, made: bool },
    /// create, escrow, wrap, unwrap: one after another, each through the client
    Tour { cfg: MintCfg, t22: bool, balance: u32, share: u8 },
}
pub struct C27;

fn world_json(vm: &Vm, w: &World, broken: &[String]) -> Value {
    let a: Map<String, Value> =
        w.a.iter().filter(|(_, a)| a.lamports > 0).map(|(k, a)| (k.to_string(), json!({"data": B64.encode(&a.data), "lamports": a.lamports.to_string(), "owner": a.owner.to_string()}))).collect();
    let r0 = vm.rent(0);
    json!({"accounts": a, "broken": broken, "rent": [r0, vm.rent(1) - r0]})
}
fn amount(n: u64, num: bool) -> Value {
    if num && n < 1 << 53 { json!(n) } else { big(n) }
}
fn payer() -> Pubkey {
    key("js-payer", 0)
}
fn exactly(want: &[Instruction], v: &Value) -> Result<Vec<Instruction>, String> {
    let got = instructions(v).ok_or(format!("not instructions: {v}"))?;
    for (i, s) in &got {
        for (m, s) in i.accounts.iter().zip(s) {
            if m.is_signer && s.is_some_and(|s| s != m.pubkey) {
                return Err(format!("the signer of {} is attached to {}", s.unwrap(), m.pubkey));
            }
            if m.is_signer != s.is_some() {
                return Err(format!("account {} signs: {}, has a signer attached: {}", m.pubkey, m.is_signer, s.is_some()));
            }
        }
    }
    let got: Vec<Instruction> = got.into_iter().map(|x| x.0).collect();
    match same_ixs(want, &got) {
        Some(x) => Err(x),
        None => Ok(got),
    }
}
/// Sends what the client made as one transaction.
fn send(w: &World, vm: &mut Vm, ixs: &[Instruction]) -> Result<World, Value> {
    apply(w, vm, &payer(), signers_of(&payer(), ixs), &merged(&payer(), ixs))
}

impl Prop for C27 {
    type Case = FlowCase;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "a helper's instructions were executed in the VM, or a transaction message was put together"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["@solana/kit and the token and system clients are stand-ins written from their documentation; the client's own TypeScript runs as it is", "the node is a stand-in that answers from the generated accounts"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 15_000 } else { 400_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FlowCase> {
        let fund = || prop_oneof![3 => Just((0u8, 0u32)), 2 => (1u8..4, prop_oneof![1 => 0u32..3, 4 => 0u32..2_000_000])];
        let set_up = move || {
            (
                (mint_cfg(Focus::Wrap), prop_oneof![12 => Just(0u8), 1 => Just(1u8)], any::<bool>(), prop::bool::weighted(0.2)),
                ([fund(), fund()], prop_oneof![2 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8)], any::<Option<bool>>(), prop::option::weighted(0.1, 0u8..5)),
            )
                .prop_map(|((cfg, state, t22, made), (fund, escrow, idem, broken))| SetUp { cfg, state, t22, made, fund, escrow, idem, broken })
        };
        let part = || {
            (prop_oneof![3 => any::<u16>(), 1 => Just(u16::MAX), 1 => Just(0u16)], any::<u8>(), prop_oneof![24 => Just(0u8), 1 => 1u8..4], any::<u16>())
                .prop_map(|(has, rot, differs, at)| Part { has, rot, differs, at })
        };
        prop_oneof![
            5 => (mv(), prop_oneof![1 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)], any::<bool>(), any::<bool>(), prop::option::weighted(0.06, 0u8..2)).prop_map(|(m, auth, name, num, broken)| FlowCase::Move { m, auth, name, num, broken }),
            2 => set_up().prop_map(FlowCase::Mint),
            2 => set_up().prop_map(FlowCase::Escrow),
            2 => (mv(), any::<u8>(), any::<bool>(), any::<bool>(), any::<[u8; 32]>(), any::<u64>()).prop_map(|(m, extra, as_signer, num, hash, height)| FlowCase::Offline { m, extra, as_signer, num, hash, height }),
            3 => (1u8..9, vec(any::<u8>(), 0..60), prop_oneof![4 => 0u16..300, 1 => 600u16..1300, 2 => Just(u16::MAX)], prop_oneof![1 => vec(part(), 0), 4 => vec(part(), 1), 20 => vec(part(), 1..6)], any::<[u8; 32]>(), any::<u64>())
                .prop_map(|(signers, message, pad, parts, hash, height)| FlowCase::Combine { signers, message, pad, parts, hash, height }),
            2 => (0u8..3, 0u8..3, any::<bool>(), meta(0, 30, 5), 0u8..4, any::<bool>()).prop_map(|(kind, start, to_spl, meta, give, made)| FlowCase::Sync { kind, start, to_spl, meta, give, made }),
            1 => (mint_cfg(Focus::Wrap), any::<bool>(), any::<u32>(), any::<u8>()).prop_map(|(mut cfg, t22, balance, share)| {
                cfg.native = false;
                cfg.ext &= !(xb::HOOK | xb::NON_TRANSFERABLE | xb::CT_FEE | xb::DEFAULT_FROZEN | xb::PAUSABLE);
                FlowCase::Tour { cfg: cfg.norm(), t22, balance, share }
            }),
        ]
        .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &FlowCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        match c {
            FlowCase::Move { m, auth, name, num, broken } => moves(vm, m, *auth, *name, *num, *broken, st),
            FlowCase::Mint(s) => mint(vm, s, st),
            FlowCase::Escrow(s) => escrow(vm, s, st),
            FlowCase::Offline { m, extra, as_signer, num, hash, height } => offline(vm, m, *extra, *as_signer, *num, hash, *height, st),
            FlowCase::Combine { signers, message, pad, parts, hash, height } => combine(*signers, message, *pad, parts, hash, *height, st),
            FlowCase::Sync { kind, start, to_spl, meta, give, made } => sync(vm, *kind, *start, *to_spl, meta, *give, *made, st),
            FlowCase::Tour { cfg, t22, balance, share } => tour(vm, cfg, *t22, *balance, *share, st),
        }
    }
}

fn moves(vm: &mut Vm, m: &Move, auth: u8, name: bool, num: bool, broken: Option<u8>, st: &mut Stats) -> Result<(), Violation> {
    let me = payer();
    let mut sc = scene(vm, m, &me);
    sc.w.set_lamports(me, 10_000_000_000);
    sc.w.a.retain(|_, a| a.lamports > 0);
    let p = sc.p.clone();
    let f = if m.unwrap { "singleSignerUnwrap" } else { "singleSignerWrap" };
    let authority = if auth == 0 { me } else { sc.authority };
    let meta = if auth == 2 { r(authority) } else { rs(authority) };
    let mut args = Map::new();
    let mut put = |k: &str, v: Value| {
        args.insert(k.into(), v);
    };
    put("payer", signer(&me));
    put("amount", amount(sc.amount, num));
    match auth {
        1 => put("transferAuthority", signer(&authority)),
        2 => put("transferAuthority", b58(&authority)),
        _ => {}
    }
    // what the caller names is taken as it is, also when it is not what the accounts say
    let flip = |k: Pubkey, g: Give| if g == Give::Wrong { prog_id(k != T22) } else { k };
    let e = Pair::new(if m.give_mint == Give::Wrong { sc.other_mint } else { p.umint }, flip(p.uprog, m.give_uprog), flip(p.wprog, m.give_wprog));
    let astray = [m.give_mint, m.give_uprog, m.give_wprog].contains(&Give::Wrong);
    if m.give_mint != Give::Omit {
        put("unwrappedMint", b58(&e.umint));
    }
    if m.give_uprog != Give::Omit {
        put("unwrappedTokenProgram", b58(&e.uprog));
    }
    // what the client has to look up, and whether it can
    let (mut must, mut judged) = (Ok(()), true);
    let lookup = |k: u8| -> Result<(), &'static str> {
        let there = if k == 0 { m.src != 1 } else { m.rcpt != 2 };
        there.then_some(()).ok_or("an account that has to be looked up does not exist")
    };
    let want;
    if m.unwrap {
        put("wrappedTokenAccount", b58(&sc.source));
        put("recipientUnwrappedToken", b58(&sc.rcpt));
        if m.give_wprog != Give::Omit {
            put("wrappedTokenProgram", b58(&e.wprog));
        }
        if m.give_mint == Give::Omit || m.give_uprog == Give::Omit {
            must = lookup(1);
        }
        must = must.and(lookup(0));
        if m.src == 2 {
            must = Err("the source is no token account");
        }
        // a recipient of another mint, from which the mint is to be told
        judged &= m.rcpt != 3 || m.give_mint != Give::Omit;
        // the wrapped mint is the one of the source
        let e = Pair { wmint: p.wmint, wauth: p.wauth, backptr: p.backptr, escrow: ata(&p.wauth, &e.umint, &e.uprog), ..e };
        want = ix_unwrap(&e, sc.rcpt, sc.source, meta, &[], sc.amount);
    } else {
        put("unwrappedTokenAccount", b58(&sc.source));
        put("wrappedTokenProgram", b58(&e.wprog));
        if m.rcpt != 0 || name {
            put("recipientWrappedTokenAccount", b58(&sc.rcpt));
        } else {
            sc.rcpt = ata(&me, &e.wmint, &e.wprog);
        }
        if m.give_mint == Give::Omit || m.give_uprog == Give::Omit {
            must = lookup(0);
        }
        if m.src == 2 {
            if m.give_mint == Give::Omit {
                must = Err("the source is no token account");
            }
            judged &= m.give_mint == Give::Omit || m.give_uprog != Give::Omit;
        }
        want = ix_wrap(&e, sc.rcpt, sc.source, meta, &[], sc.amount);
    }
    let broken: Vec<String> = broken.iter().map(|b| [sc.source, sc.rcpt][*b as usize % 2].to_string()).collect();
    let q = json!({"op": "move", "fn": f, "world": world_json(vm, &sc.w, &broken), "args": args});
    let got = ask(&q);
    let show = || format!("{f}({}) of {m:?}", Value::from(args.clone()));
    if !judged {
        st.hit("not judged");
        return Ok(());
    }
    let v = match (got, must) {
        (Ok(v), Ok(())) => v,
        (Ok(v), Err(why)) => return viol("not-refused", format!("{why}, yet {} gives {v}", show())),
        (Err(e), Ok(())) if broken.is_empty() => return viol("refused", format!("{} throws {e}", show())),
        (Err(_), Err(why)) => {
            st.hit(format!("refused: {why}"));
            return Ok(());
        }
        (Err(_), Ok(())) => {
            st.hit("a lookup failed");
            return Ok(());
        }
    };
    let ixs = exactly(&[want], &v["ixs"]).map_err(|e| Violation { sig: "instructions".into(), msg: format!("{}: {e}", show()) })?;
    let result = if m.unwrap {
        json!({"recipientUnwrappedToken": b58(&sc.rcpt), "amount": big(sc.amount)})
    } else {
        json!({"recipientWrappedTokenAccount": b58(&sc.rcpt), "escrowAccount": b58(&e.escrow), "amount": big(sc.amount)})
    };
    if v["result"] != result {
        return viol("result", format!("{} reports {}, expected {result}", show(), v["result"]));
    }
    st.nontrivial = send(&sc.w, vm, &ixs).is_ok();
    st.hit(format!("{f} {}{}", if st.nontrivial { "accepted" } else { "refused by the chain" }, if astray { ", something else named" } else { "" }));
    Ok(())
}

fn put_state(vm: &mut Vm, s: &SetUp) -> (World, Pair, usize) {
    let mut w = World::default();
    let umint = if s.cfg.native {
        if s.cfg.t22 { NATIVE22 } else { NATIVE }
    } else {
        key("js-mint", 0)
    };
    if s.state == 0 {
        create_mint(&mut w, vm, umint, &s.cfg, None);
    }
    let p = Pair::new(umint, s.cfg.prog(), prog_id(s.t22));
    let space = if s.t22 { p_create::tlv_space(&p_create::expected_tlv(Deployment::Main, &p)) } else { 82 };
    for (k, (kind, n), len) in [(p.wmint, s.fund[0], space), (p.backptr, s.fund[1], 32)] {
        let need = vm.rent(len);
        let l = match kind {
            0 => 0,
            1 => need.saturating_sub(n as u64 % 100_000),
            2 => (n as u64).max(1),
            _ => need + n as u64 % 1000,
        };
        if l > 0 {
            w.fund(k, l);
        }
    }
    if s.made && s.state == 0 {
        let mut full = w.clone();
        full.fund(p.wmint, vm.rent(space));
        full.fund(p.backptr, vm.rent(32));
        full.must(vm, &ix_create_mint(&p, false));
        w = full;
    }
    match s.escrow {
        1 if s.state == 0 => {
            let _ = create_ata(&mut w, vm, p.wauth, umint, p.uprog);
        }
        2 => w.fund(p.escrow, 890_880),
        _ => {}
    }
    w.set_lamports(payer(), 10_000_000_000);
    w.a.retain(|_, a| a.lamports > 0);
    (w, p, space)
}

fn mint(vm: &mut Vm, s: &SetUp, st: &mut Stats) -> Result<(), Violation> {
    let (w, p, space) = put_state(vm, s);
    let lack = [vm.rent(space).saturating_sub(w.lamports(&p.wmint)), vm.rent(32).saturating_sub(w.lamports(&p.backptr))];
    let mut want: Vec<Instruction> = [(p.wmint, lack[0]), (p.backptr, lack[1])].into_iter().filter(|x| x.1 > 0).map(|(k, n)| transfer_ix(payer(), k, n)).collect();
    want.push(ix_create_mint(&p, s.idem == Some(true)));
    let mut args = json!({"unwrappedMint": b58(&p.umint), "wrappedTokenProgram": b58(&p.wprog), "payer": signer(&payer())});
    if let Some(i) = s.idem {
        args["idempotent"] = json!(i);
    }
    let broken: Vec<String> = s.broken.iter().map(|b| if *b == 4 { "rent".into() } else { [p.wmint, p.backptr, p.wmint, p.backptr][*b as usize % 4].to_string() }).collect();
    let show = || format!("createMint({args}) of {s:?}");
    let v = match ask(&json!({"op": "createMint", "world": world_json(vm, &w, &broken), "args": args})) {
        Ok(v) => v,
        Err(_) if !broken.is_empty() => {
            st.hit("a lookup failed");
            return Ok(());
        }
        Err(e) => return viol("refused", format!("{} throws {e}", show())),
    };
    let ixs = exactly(&want, &v["ixs"]).map_err(|e| Violation { sig: "instructions".into(), msg: format!("{}: {e}", show()) })?;
    let (got, say) = (json!([v["wrappedMint"], v["backpointer"], v["funded"]]), json!([b58(&p.wmint), b58(&p.backptr), [lack[0].to_string(), lack[1].to_string()]]));
    if got != say {
        return viol("result", format!("{} reports {got}, expected {say}", show()));
    }
    let r = send(&w, vm, &ixs);
    if s.state == 0 && (!s.made || s.idem == Some(true)) {
        match &r {
            Err(e) => return viol("chain-refuses", format!("the chain refuses what {} gives: {e}: {}", show(), ixs.iter().map(show_ix).collect::<Vec<_>>().join(" | "))),
            Ok(n) => {
                if n.mint(&p.wmint).is_none() || n.data(&p.backptr) != p.umint.as_ref() {
                    return viol("effect", format!("{} created nothing", show()));
                }
            }
        }
    }
    st.nontrivial = r.is_ok();
    st.hit(format!("createMint {}, topping up {}", if st.nontrivial { "accepted" } else { "refused by the chain" }, lack.iter().filter(|n| **n > 0).count()));
    Ok(())
}

fn escrow(vm: &mut Vm, s: &SetUp, st: &mut Stats) -> Result<(), Violation> {
    let (w, p, _) = put_state(vm, s);
    let there = tok::acct(w.data(&p.escrow)).is_some();
    let args = json!({"unwrappedMint": b58(&p.umint), "wrappedTokenProgram": b58(&p.wprog), "payer": signer(&payer())});
    let broken: Vec<String> = s.broken.iter().map(|b| [p.escrow, p.umint][*b as usize % 2].to_string()).collect();
    let show = || format!("createEscrowAccount({args}) of {s:?}");
    let v = match ask(&json!({"op": "createEscrow", "world": world_json(vm, &w, &broken), "args": args})) {
        Ok(v) if s.state != 0 => return viol("not-refused", format!("the mint does not exist, yet {} gives {v}", show())),
        Ok(v) => v,
        Err(_) if !broken.is_empty() || s.state != 0 => {
            st.hit("a lookup failed or the mint is absent");
            return Ok(());
        }
        Err(e) => return viol("refused", format!("{} throws {e}", show())),
    };
    if there {
        let want = json!({"kind": "already_exists", "address": b58(&p.escrow), "mint": b58(&p.umint), "owner": b58(&p.wauth)});
        if v != want {
            return viol("result", format!("{} gives {v}, expected {want}", show()));
        }
        st.nontrivial = true;
        st.hit("the escrow exists");
        return Ok(());
    }
    if v["kind"] != "instructions_to_create" || v["address"] != b58(&p.escrow) {
        return viol("result", format!("{} gives {v}", show()));
    }
    let want = spl_associated_token_account_interface::instruction::create_associated_token_account(&payer(), &p.wauth, &p.umint, &p.uprog);
    let ixs = exactly(&[want], &v["ixs"]).map_err(|e| Violation { sig: "instructions".into(), msg: format!("{}: {e}", show()) })?;
    let r = send(&w, vm, &ixs);
    if let Ok(n) = &r {
        if tok::acct(n.data(&p.escrow)).is_none_or(|a| a.owner != p.wauth || a.mint != p.umint) {
            return viol("effect", format!("{} created no escrow", show()));
        }
    }
    st.nontrivial = r.is_ok();
    st.hit(format!("createEscrowAccount {}{}", if r.is_ok() { "accepted" } else { "refused by the chain" }, if s.escrow == 2 { ", where lamports lie" } else { "" }));
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn offline(vm: &mut Vm, m: &Move, extra: u8, as_signer: bool, num: bool, hash: &[u8; 32], height: u64, st: &mut Stats) -> Result<(), Violation> {
    let me = payer();
    let mut m = m.clone();
    m.src = 0;
    if let Who::Multi { payer, .. } = &mut m.who {
        *payer = false;
    }
    let mut sc = scene(vm, &m, &me);
    sc.w.set_lamports(me, 10_000_000_000);
    sc.w.a.retain(|_, a| a.lamports > 0);
    let p = &sc.p;
    // members in any order, sometimes more than are needed
    let members: Vec<usize> = if sc.multi {
        let take = if extra > 200 { sc.members } else { sc.need };
        (0..take).map(|i| (i + extra as usize) % sc.members).collect()
    } else {
        vec![]
    };
    let keys: Vec<Pubkey> = members.iter().map(|i| member_kp(*i).pk).collect();
    let metas: Vec<AccountMeta> = keys.iter().map(|k| rs(*k)).collect();
    let signs = as_signer && !sc.multi;
    let auth = if signs { rs(sc.authority) } else { r(sc.authority) };
    let bh = bs58::encode(hash).into_string();
    let mut args = json!({
        "payer": signer(&me),
        "amount": amount(sc.amount, num),
        "transferAuthority": if signs { signer(&sc.authority) } else { b58(&sc.authority) },
        "wrappedMint": b58(&p.wmint),
        "wrappedMintAuthority": b58(&p.wauth),
        "unwrappedMint": b58(&p.umint),
        "wrappedTokenProgram": b58(&p.wprog),
        "unwrappedTokenProgram": b58(&p.uprog),
        "multiSigners": keys.iter().map(signer).collect::<Vec<_>>(),
        "blockhash": {"blockhash": bh, "lastValidBlockHeight": big(height)},
    });
    let (f, want) = if m.unwrap {
        args["wrappedTokenAccount"] = b58(&sc.source);
        args["recipientUnwrappedToken"] = b58(&sc.rcpt);
        ("multisigOfflineSignUnwrap", ix_unwrap(p, sc.rcpt, sc.source, auth, &metas, sc.amount))
    } else {
        args["unwrappedTokenAccount"] = b58(&sc.source);
        args["recipientWrappedTokenAccount"] = b58(&sc.rcpt);
        ("multisigOfflineSignWrap", ix_wrap(p, sc.rcpt, sc.source, auth, &metas, sc.amount))
    };
    let v = ask(&json!({"op": "offline", "fn": f, "args": args})).map_err(|e| Violation { sig: "refused".into(), msg: format!("{f}({args}) throws {e}") })?;
    let bad = |what: &str| viol("message", format!("{f}({args}): {what}: {v}"));
    if v["version"] != json!(0) {
        return bad("not a version 0 message");
    }
    if v["payer"] != b58(&me) || v["payerSigns"] != json!(true) {
        return bad("the fee payer");
    }
    if v["lifetime"] != json!({"blockhash": bh, "lastValidBlockHeight": big(height)}) {
        return bad("the lifetime");
    }
    let ixs = exactly(&[want], &v["ixs"]).map_err(|e| Violation { sig: "instructions".into(), msg: format!("{f}({args}): {e}") })?;
    st.nontrivial = true;
    st.hit(format!("{f} {}", if send(&sc.w, vm, &ixs).is_ok() { "accepted" } else { "refused by the chain" }));
    Ok(())
}

fn combine(n: u8, message: &[u8], pad: u16, parts: &[Part], hash: &[u8; 32], height: u64, st: &mut Stats) -> Result<(), Violation> {
    let n = n as usize;
    let keys: Vec<Pubkey> = (0..n).map(|i| key("js-signer", i as u64 + hash[0] as u64 * 16)).collect();
    let sig = |i: usize| [i as u8 + 1; 64].to_vec();
    let mut message = message.to_vec();
    // at, or just beyond, what a transaction may measure
    let room = 1232 - 1 - 64 * n;
    let len = if pad == u16::MAX { room + (hash[1] % 4 == 0) as usize } else { message.len() + pad as usize };
    message.resize(len.max(1), 7);
    let mut differing = false;
    let mut have = vec![false; n];
    let mut txs = vec![];
    for (j, t) in parts.iter().enumerate() {
        let mut msg = message.clone();
        let at = t.at as usize % msg.len();
        match t.differs {
            1 => msg[at] ^= 1 << (t.at % 8),
            2 => msg.push(t.at as u8),
            3 => {
                msg.truncate(at);
            }
            _ => {}
        }
        // the first may be the odd one out, too: then all the others differ from it
        differing |= t.differs != 0 && parts.len() > 1;
        let order: Vec<usize> = (0..n).map(|i| (i + if j == 0 { 0 } else { t.rot as usize }) % n).collect();
        let sigs: Vec<Value> = order
            .iter()
            .map(|i| {
                let yes = t.has >> i & 1 == 1;
                have[*i] |= yes;
                json!([keys[*i].to_string(), if yes { json!(hex(&sig(*i))) } else { Value::Null }])
            })
            .collect();
        txs.push((msg, sigs));
    }
    // two that differ may differ in the same way
    if differing {
        differing = txs.iter().any(|t| t.0 != txs[0].0);
    }
    let bh = json!({"blockhash": bs58::encode(hash).into_string(), "lastValidBlockHeight": big(height)});
    let q = json!({"op": "combine", "blockhash": bh, "txs": txs.iter().map(|(m, s)| json!({"message": hex(m), "signatures": s})).collect::<Vec<_>>()});
    let complete = have.iter().all(|x| *x);
    let size = txs.first().map_or(0, |t| 1 + 64 * n + t.0.len());
    let got = ask(&q);
    let why = if txs.is_empty() {
        Some("there is nothing to combine")
    } else if differing {
        Some("the messages differ")
    } else if !complete {
        Some("a signature is missing")
    } else if size > 1232 {
        Some("the transaction is too large")
    } else {
        None
    };
    st.hit(why.unwrap_or("combined"));
    match (got, why) {
        (Ok(v), Some(why)) => viol("not-refused", format!("{why}, yet combinedMultisigTx gives {v} for {q}")),
        (Err(_), Some(_)) => Ok(()),
        (Err(e), None) => viol("refused", format!("combinedMultisigTx throws {e} for {q}")),
        (Ok(v), None) => {
            // a chain verifies signatures in the message's order of signers
            let want = json!({
                "message": hex(&txs[0].0),
                "signatures": keys.iter().enumerate().map(|(i, k)| json!([k.to_string(), hex(&sig(i))])).collect::<Vec<_>>(),
                "lifetime": bh,
            });
            if v != want {
                return viol("combined", format!("combinedMultisigTx gives {v}, expected {want}"));
            }
            st.nontrivial = parts.len() > 1;
            Ok(())
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn sync(vm: &mut Vm, kind: u8, start: u8, to_spl: bool, meta: &Meta, give: u8, made: bool, st: &mut Stats) -> Result<(), Violation> {
    let mut l = SyncLab::new(vm, kind, start, to_spl);
    let at = l.at;
    l.write(vm, at, meta.clone());
    l.w.fund(l.p.wmint, 1_000_000_000);
    l.w.fund(l.p.wauth, 1_000_000_000);
    l.w.set_lamports(payer(), 10_000_000_000);
    let right = l.extra_accounts();
    let p = l.p.clone();
    // 0 what the mint's metadata needs, 1 all there could be, 2 too little, 3 something else
    let (src, own) = match give {
        0 | 1 => (right.first().copied().or((give == 1).then_some(p.umint)), right.get(1).copied().or((give == 1).then_some(MOCK_META))),
        2 => (None, right.get(1).copied()),
        _ => (Some(key("unrelated-account", 0)), Some(MOCK_META2)),
    };
    let mut input = json!({"wrappedMint": b58(&p.wmint), "wrappedMintAuthority": b58(&p.wauth), "unwrappedMint": b58(&p.umint)});
    if to_spl {
        input["metaplexMetadata"] = b58(&metaplex_pda(&p.wmint));
    }
    for (k, v) in [("sourceMetadata", src), ("ownerProgram", own)] {
        if let Some(v) = v {
            input[k] = b58(&v);
        }
    }
    let f = if to_spl { "getSyncMetadataToSplTokenInstruction" } else { "getSyncMetadataToToken2022Instruction" };
    let build = |w: &World, vm: &mut Vm| -> Result<Option<World>, Violation> {
        let v = ask(&json!({"op": "build", "fn": f, "input": input})).map_err(|e| Violation { sig: "refused".into(), msg: format!("{f}({input}) throws {e}") })?;
        let Some((ix, _)) = instruction(&v) else { return viol("instructions", format!("{f}({input}) gives {v}")) };
        Ok(send(w, vm, &[ix]).ok())
    };
    // as the program's own builder makes it; an owner needs a source before it
    let extra: Vec<Pubkey> = src.into_iter().chain(own.filter(|_| src.is_some())).collect();
    let ix = if to_spl { ix_sync_spl(&p, &extra) } else { ix_sync22(&p, &extra) };
    let mut w = l.w.clone();
    if made {
        // a second time
        if let Ok(n) = send(&w, vm, std::slice::from_ref(&ix)) {
            w = n;
        }
    }
    let want = send(&w, vm, &[ix]).ok();
    let got = build(&w, vm)?;
    match (&got, &want) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            if let Some(x) = a.diff(b, &[]) {
                return viol("effect", format!("{f}({input}) does not do what the program's own builder does: {x}"));
            }
        }
        _ => return viol("effect", format!("{f}({input}): {}, as the program's own builder makes it: {}", got.is_some(), want.is_some())),
    }
    st.nontrivial = got.is_some();
    st.hit(format!("{f}, kind {kind} at {at}, {}: {}", ["what it needs", "all accounts", "no source", "wrong source"][give as usize % 4], if got.is_some() { "accepted" } else { "refused" }));
    Ok(())
}

fn tour(vm: &mut Vm, cfg: &MintCfg, t22: bool, balance: u32, share: u8, st: &mut Stats) -> Result<(), Violation> {
    let me = payer();
    let mut w = World::default();
    let umint = key("js-tour", 0);
    create_mint(&mut w, vm, umint, cfg, None);
    let p = Pair::new(umint, cfg.prog(), prog_id(t22));
    let mine = ata(&me, &umint, &p.uprog);
    w.set_lamports(me, 10_000_000_000);
    if create_ata(&mut w, vm, me, umint, p.uprog).is_err() {
        abort("account".into());
    }
    let balance = balance as u64 + 2;
    w.must(vm, &ix_mint_to(p.uprog, umint, mine, mint_authority_key(), balance));
    let step = |w: &mut World, vm: &mut Vm, q: Value, what: &str| -> Result<Value, Violation> {
        let mut q = q;
        q["world"] = world_json(vm, w, &[]);
        let v = ask(&q).map_err(|e| Violation { sig: "refused".into(), msg: format!("{what} throws {e}; {cfg:?}") })?;
        let ixs: Vec<Instruction> = instructions(&v["ixs"]).ok_or(()).or_else(|_| viol("instructions", format!("{what} gives {v}")))?.into_iter().map(|x| x.0).collect();
        *w = send(w, vm, &ixs).map_err(|e| Violation { sig: "chain-refuses".into(), msg: format!("the chain refuses {what}: {e}: {}; {cfg:?}", ixs.iter().map(show_ix).collect::<Vec<_>>().join(" | ")) })?;
        Ok(v)
    };
    let pair = json!({"unwrappedMint": b58(&umint), "wrappedTokenProgram": b58(&p.wprog), "payer": signer(&me)});
    step(&mut w, vm, json!({"op": "createMint", "args": pair}), "createMint")?;
    step(&mut w, vm, json!({"op": "createEscrow", "args": pair}), "createEscrowAccount")?;
    let v = ask(&json!({"op": "createEscrow", "args": pair, "world": world_json(vm, &w, &[])}));
    if v.as_ref().map(|v| v["kind"] == "already_exists") != Ok(true) {
        return viol("result", format!("the escrow is there, createEscrowAccount gives {v:?}; {cfg:?}"));
    }
    let to = ata(&me, &p.wmint, &p.wprog);
    if create_ata(&mut w, vm, me, p.wmint, p.wprog).is_err() {
        abort("account".into());
    }
    let n = (balance as u128 * (share as u128 + 1) / 256).max(1) as u64;
    step(&mut w, vm, json!({"op": "move", "fn": "singleSignerWrap", "args": {"payer": signer(&me), "unwrappedTokenAccount": b58(&mine), "wrappedTokenProgram": b58(&p.wprog), "amount": big(n)}}), "singleSignerWrap")?;
    let got = w.amount(&to);
    if w.amount(&mine) != balance - n || got > n || got != w.supply(&p.wmint) || got != w.amount(&p.escrow) {
        return viol("tour", format!("wrapping {n} of {balance} leaves {}, gives {got}, supply {}, escrow {}; {cfg:?}", w.amount(&mine), w.supply(&p.wmint), w.amount(&p.escrow)));
    }
    if got > 0 {
        step(&mut w, vm, json!({"op": "move", "fn": "singleSignerUnwrap", "args": {"payer": signer(&me), "wrappedTokenAccount": b58(&to), "recipientUnwrappedToken": b58(&mine), "amount": big(got)}}), "singleSignerUnwrap")?;
    }
    let back = w.amount(&mine);
    if w.amount(&to) != 0 || w.supply(&p.wmint) != 0 || w.amount(&p.escrow) != 0 || back > balance || (cfg.ext & xb::FEE == 0 && back != balance) {
        return viol("tour", format!("unwrapping all leaves {back} of {balance}, wrapped {}, escrow {}; {cfg:?}", w.amount(&to), w.amount(&p.escrow)));
    }
    st.nontrivial = true;
    st.hit("created, wrapped and unwrapped");
    Ok(())
}
