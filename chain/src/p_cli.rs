//! C23, C24, C25: the command-line tool against the chain.
use {
    crate::{engine::*, lab::*, meta::*, p_close, p_create, p_sync::SyncLab, rpc::*, tok, vm::*, world::*},
    base64::{engine::general_purpose::STANDARD as B64, Engine},
    proptest::{collection::vec, prelude::*},
    serde::{Deserialize, Serialize},
    serde_json::Value,
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
};

// ---- what every invocation has ----
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    /// 0 nothing, 1 display, 2 json, 3 json-compact, 4 quiet, 5 -v, 6 --output verbose
    pub fmt: u8,
    pub dry: bool,
    /// fee payer: 0 the configuration's key, 1 --fee-payer, 2 --fee-payer file:
    pub payer: u8,
    /// the configuration's URL leads nowhere and -u gives the node's
    pub url: bool,
    /// the configuration lies at its default place
    pub home: bool,
    /// global options before the command
    pub front: bool,
    /// lamports of the payer
    pub purse: u64,
    /// accepted, then fails in its block
    pub land: bool,
    pub nth: Option<u8>,
    /// something on the command line is not what it has to be
    #[serde(default)]
    pub spoil: Option<(u8, u8)>,
}
/// Replaces an amount, an address or a token program by something that is none.
pub fn spoil(o: &Opts, args: &mut [String]) -> Option<String> {
    let (which, how) = o.spoil?;
    let spots: Vec<usize> = (1..args.len()).filter(|i| !args[*i].starts_with("--") && (args[*i].len() > 30 || *i == 3)).collect();
    let i = *spots.get(which as usize % spots.len().max(1))?;
    let a = args[i].clone();
    let n = a.parse::<u64>().is_ok();
    let new = if n {
        let v = ["", "1.5", "1e3", "18446744073709551616", "0x10", "1_000", "1,000", "ALL", "1 0", "340282366920938463463374607431768211457"];
        let t = v[how as usize % v.len()].to_string();
        if how > 200 { format!("{a}.0") } else if how > 180 { format!("{a}0000000000000000000000") } else { t }
    } else if a == SPL.to_string() || a == T22.to_string() {
        [COPY_T22, COPY_SPL, SYS, TW, ATA][how as usize % 5].to_string()
    } else if a.parse::<Pubkey>().is_ok() {
        match how % 4 {
            0 => a[..20].to_string(),
            1 => format!("{a}1"),
            2 => format!("0{}", &a[1..]),
            _ => format!("/nowhere/{a}"),
        }
    } else {
        return None;
    };
    args[i] = new.clone();
    Some(format!("{a:?} is replaced by {new:?}"))
}
pub fn opts() -> BoxedStrategy<Opts> {
    (
        prop_oneof![2 => Just(0u8), 5 => Just(2u8), 1 => Just(1u8), 2 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8), 1 => Just(6u8)],
        prop::bool::weighted(0.15),
        prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.3),
        any::<bool>(),
        prop_oneof![12 => Just(10_000_000_000u64), 1 => Just(0u64), 1 => 0u64..10_000_000],
        prop::bool::weighted(0.07),
        (prop::option::weighted(0.08, 0u8..9), prop::option::weighted(0.04, any::<(u8, u8)>())),
    )
        .prop_map(|(fmt, dry, payer, url, home, front, purse, land, (nth, spoil))| Opts { fmt, dry, payer, url, home, front, purse, land: land && !dry, nth, spoil })
        .boxed()
}
pub fn cfg_kp() -> Kp {
    Kp::new("cli-config", 0)
}
pub fn other_kp() -> Kp {
    Kp::new("cli-payer", 0)
}
impl Opts {
    pub fn payer(&self) -> Kp {
        if self.payer == 0 { cfg_kp() } else { other_kp() }
    }
    pub fn json(&self) -> bool {
        self.fmt == 2 || self.fmt == 3
    }
    /// Writes the files, returns the argument list.
    pub fn args(&self, s: &Scratch, cmd: &[String], extra_global: &[String]) -> Vec<String> {
        let key = s.file("id.json", &cfg_kp().json());
        let url = if self.url { DEAD_URL } else { "{url}" };
        s.file("config.tmpl", &format!("---\njson_rpc_url: \"{url}\"\nwebsocket_url: \"\"\nkeypair_path: {key}\naddress_labels: {{}}\ncommitment: confirmed\n"));
        let mut g: Vec<String> = vec![];
        let mut add = |v: &[&str]| g.extend(v.iter().map(|s| s.to_string()));
        if self.home {
            let d = s.0.join(".config/solana/cli");
            std::fs::create_dir_all(&d).unwrap();
            let _ = std::os::unix::fs::symlink(s.0.join("config.yml"), d.join("config.yml"));
        } else {
            add(&["-C", s.0.join("config.yml").to_str().unwrap()]);
        }
        if self.url {
            add(&["-u", "{url}"]);
        }
        if self.payer > 0 {
            let f = s.file("payer.json", &other_kp().json());
            add(&["--fee-payer", &if self.payer == 2 { format!("file:{f}") } else { f }]);
        }
        match self.fmt {
            1 => add(&["--output", "display"]),
            2 => add(&["--output", "json"]),
            3 => add(&["--output", "json-compact"]),
            4 => add(&["--output", "quiet"]),
            5 => add(&["-v"]),
            6 => add(&["--output", "verbose"]),
            _ => {}
        }
        if self.dry {
            add(&["--dry-run"]);
        }
        g.extend_from_slice(extra_global);
        if self.front {
            g.extend_from_slice(cmd);
            g
        } else {
            let mut v = cmd.to_vec();
            v.extend(g);
            v
        }
    }
    pub fn fault(&self) -> Fault {
        Fault { land: self.land, nth: self.nth.map(|n| n as usize) }
    }
}

/// How the output reports signatures.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SigField {
    None,
    One,
    Many,
}
/// What an invocation should do.
pub struct Plan {
    /// the instructions of its one transaction; none: nothing to send
    pub ixs: Vec<Instruction>,
    /// it contradicts itself or the chain's state: it must not succeed
    pub refuse: Option<String>,
    /// all required signatures can be made or were given
    pub signable: bool,
    /// whether the outcome is judged at all beyond "nothing is sent"
    pub judged: bool,
    pub blockhash: Option<[u8; 32]>,
    pub fields: Vec<(&'static str, &'static str, Option<String>)>,
    pub sig: SigField,
}
impl Plan {
    pub fn new(ixs: Vec<Instruction>) -> Plan {
        Plan { ixs, refuse: None, signable: true, judged: true, blockhash: None, fields: vec![], sig: SigField::None }
    }
}

pub fn show_ix(i: &Instruction) -> String {
    let a: Vec<String> = i.accounts.iter().map(|m| format!("{}{}{}", short(&m.pubkey), if m.is_signer { "+s" } else { "" }, if m.is_writable { "+w" } else { "" })).collect();
    format!("{} data {:?} [{}]", short(&i.program_id), &i.data[..i.data.len().min(16)], a.join(" "))
}
pub fn same_ixs(want: &[Instruction], got: &[Instruction]) -> Option<String> {
    let show = |v: &[Instruction]| v.iter().map(show_ix).collect::<Vec<_>>().join(" | ");
    let (mut a, mut b) = (want.to_vec(), got.to_vec());
    // lamport transfers ahead of the last instruction have no order among them
    let k = |i: &Instruction| (i.program_id, i.data.clone(), i.accounts.iter().map(|m| m.pubkey).collect::<Vec<_>>());
    for v in [&mut a, &mut b] {
        let n = v.len().saturating_sub(1);
        if v[..n].iter().all(|i| i.program_id == SYS) {
            v[..n].sort_by_key(k);
        }
        // the associated-token program takes no data, or a zero, for the same thing
        for i in v.iter_mut() {
            if i.program_id == ATA && i.data == [0] {
                i.data = vec![];
            }
        }
    }
    (a != b).then(|| format!("expected {} — submitted {}", show(want), show(got)))
}

/// Judges one invocation that was to send (or, dry, to simulate) its transaction.
#[allow(clippy::too_many_arguments)]
pub fn judge(node: &mut Node, before: &World, o: &Opts, payer: &Pubkey, plan: &Plan, d: &Done, what: &str, st: &mut Stats) -> Result<bool, Violation> {
    let show = || format!("{what}\nexit {:?}\nstdout: {}\nstderr: {}", d.code, cut(&d.out), cut(&d.err));
    let want_ixs = merged(payer, &plan.ixs);
    let nsig = signers_of(payer, &plan.ixs);
    let idle = plan.ixs.is_empty();
    let expected = if idle { Ok(before.clone()) } else { apply(before, node.vm, payer, nsig, &want_ixs) };
    let faulted = o.nth.is_some_and(|n| (n as usize) < node.requests.len());
    let good = plan.refuse.is_none() && plan.signable && expected.is_ok();
    let ok = d.code == Some(0);
    if node.undecodable > 0 {
        return viol("undecodable", format!("a transaction that cannot be decoded was submitted: {}", show()));
    }
    if o.dry {
        if !node.sent.is_empty() {
            return viol("sent", format!("a transaction was sent: {}", show()));
        }
    }
    let landed = node.sent.iter().filter(|s| s.ok).count();
    if let Some(x) = node.w.diff(before, &[]) {
        // something happened on chain
        if o.land {
            return viol("harness", "a failed landing changed the chain");
        }
        if let Some(r) = &plan.refuse {
            return viol("not-refused", format!("{r}, yet the chain changed ({x}): {}", show()));
        }
        let Ok(e) = &expected else {
            return viol("unexpected-effect", format!("the described transaction fails, yet the chain changed ({x}): {}", show()));
        };
        if landed != 1 {
            return viol("count", format!("{landed} transactions landed: {}", show()));
        }
        let tx = &node.sent.iter().find(|s| s.ok).unwrap().tx;
        if let Some(x) = same_ixs(&want_ixs, &tx.ixs) {
            return viol("instructions", format!("{x}: {}", show()));
        }
        if tx.keys[0] != *payer {
            return viol("payer", format!("paid by {}, not {payer}: {}", tx.keys[0], show()));
        }
        if let Some(x) = node.w.diff(e, &[]) {
            return viol("effect", format!("{x}: {}", show()));
        }
    }
    if plan.refuse.is_none() && !faulted {
        // what the chain then refuses is also what was described
        for tx in node.sent.iter().map(|s| &s.tx).chain(node.simulated.iter().map(|s| &s.0)) {
            if let Some(x) = same_ixs(&want_ixs, &tx.ixs) {
                return viol("instructions", format!("submitted: {x}: {}", show()));
            }
        }
    }
    if !plan.judged {
        return Ok(false);
    }
    if ok {
        if let Some(r) = &plan.refuse {
            return viol("not-refused", format!("{r}: {}", show()));
        }
        if !plan.signable && !o.dry {
            // (a node does not check signatures when it simulates)
            return viol("unsigned-ok", format!("reported success without a required signature: {}", show()));
        }
        if let Err(e) = &expected {
            return viol("false-success", format!("the chain refuses this ({e}), reported as success: {}", show()));
        }
        if o.land && !idle {
            return viol("false-success", format!("the transaction failed in its block, reported as success: {}", show()));
        }
        if idle {
            if !node.sent.is_empty() {
                return viol("sent", format!("sent although there was nothing to do: {}", show()));
            }
        } else if o.dry {
            let Some((tx, _)) = node.simulated.last() else {
                return viol("not-simulated", format!("a dry run that simulated nothing: {}", show()));
            };
            if let Some(x) = same_ixs(&want_ixs, &tx.ixs) {
                return viol("instructions", format!("simulated: {x}: {}", show()));
            }
            if tx.keys[0] != *payer {
                return viol("payer", format!("simulated with payer {}: {}", tx.keys[0], show()));
            }
        } else if landed != 1 {
            return viol("false-success", format!("nothing landed, reported as success: {}", show()));
        }
        let tx = if o.dry { node.simulated.last().map(|x| &x.0) } else { node.sent.iter().find(|s| s.ok).map(|s| &s.tx) };
        if let (Some(tx), Some(b)) = (tx, plan.blockhash) {
            if tx.blockhash != b {
                return viol("blockhash", format!("not the given blockhash: {}", show()));
            }
        }
        check_output(o, plan, tx, d).map_err(|m| Violation { sig: "output".into(), msg: format!("{m}: {}", show()) })?;
    } else if good && !faulted && !(o.land && !idle) {
        return viol("false-failure", format!("this should have succeeded: {}", show()));
    }
    st.hit(if faulted { "a request failed" } else if o.land && !idle { "failed in its block" } else if ok { "accepted" } else { "refused" });
    Ok(ok)
}
pub fn cut(s: &str) -> String {
    s.chars().take(1500).collect()
}

fn check_output(o: &Opts, plan: &Plan, tx: Option<&Tx>, d: &Done) -> Result<(), String> {
    match o.fmt {
        4 => {
            if !d.out.trim().is_empty() {
                return Err("quiet, yet something is printed".into());
            }
        }
        2 | 3 => {
            let v: Value = serde_json::from_str(d.out.trim()).map_err(|e| format!("not JSON: {e}"))?;
            if o.fmt == 3 && d.out.trim().lines().count() != 1 {
                return Err("compact JSON on several lines".into());
            }
            for (k, _, want) in &plan.fields {
                let got = match &v[*k] {
                    Value::Null => None,
                    Value::String(s) => Some(s.clone()),
                    x => Some(x.to_string()),
                };
                if got != *want {
                    return Err(format!("{k} is {got:?}, expected {want:?}"));
                }
            }
            match plan.sig {
                SigField::None => {}
                SigField::One => {
                    let want = if o.dry { None } else { tx.map(|t| bs58::encode(t.sigs[0]).into_string()) };
                    if v["signature"].as_str().map(|s| s.to_string()) != want {
                        return Err(format!("signature is {}, expected {want:?}", v["signature"]));
                    }
                }
                SigField::Many => {
                    if let Some(t) = tx {
                        let got: Option<Vec<Vec<u8>>> = serde_json::from_value(v["signatures"].clone()).ok();
                        if got != Some(t.sigs.iter().map(|s| s.to_vec()).collect()) {
                            return Err(format!("signatures are {}", v["signatures"]));
                        }
                    }
                }
            }
        }
        _ => {
            for (_, label, want) in &plan.fields {
                if label.is_empty() {
                    continue;
                }
                let line = d.out.lines().find(|l| l.trim_start().starts_with(label));
                match (line, want) {
                    (Some(l), Some(w)) if l.split_whitespace().any(|x| x == w) => {}
                    (None, None) => {}
                    (l, w) => return Err(format!("{label} shows {l:?}, expected {w:?}")),
                }
            }
            if let (Some(t), true) = (tx, plan.sig != SigField::None && !o.dry) {
                let s = bs58::encode(t.sigs[0]).into_string();
                if !d.out.contains(&s) {
                    return Err("the signature is not shown".into());
                }
            }
        }
    }
    Ok(())
}
fn f(json: &'static str, label: &'static str, v: impl ToString) -> (&'static str, &'static str, Option<String>) {
    (json, label, Some(v.to_string()))
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn idem(mut v: Vec<String>, yes: bool) -> Vec<String> {
    if yes {
        v.push("--idempotent".into());
    }
    v
}
pub fn prog_id(t22: bool) -> Pubkey {
    if t22 { T22 } else { SPL }
}
pub fn transfer_ix(from: Pubkey, to: Pubkey, n: u64) -> Instruction {
    let mut data = vec![2, 0, 0, 0];
    data.extend_from_slice(&n.to_le_bytes());
    Instruction { program_id: SYS, accounts: vec![AccountMeta::new(from, true), AccountMeta::new(to, false)], data }
}

// ---- C23: creating, looking up, recovering, syncing ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    FindPdas,
    CreateMint { idempotent: bool },
    CreateEscrow { idempotent: bool },
    CloseStuck { dest: u8 },
    /// source: 0 none, 1 as the mint says, 2 unrelated; owner likewise (only with a source)
    SyncSpl { source: u8, owner: u8 },
    Sync22 { source: u8, owner: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetupCase {
    pub cmd: Cmd,
    pub cfg: MintCfg,
    /// 0 a mint, 1 absent, 2 another program's account, 3 a token account, 4 an uninitialised mint
    pub state: u8,
    pub t22: bool,
    /// already created
    pub made: bool,
    /// lamports on the wrapped mint and backpointer beyond (below) what they need
    pub fund: [(u8, u32); 2],
    /// 0 none, 1 made, 2 only lamports
    pub escrow: u8,
    /// the mint comes back with other extensions
    pub renewed: Option<MintCfg>,
    pub kind: u8,
    /// 3: pointer unset
    pub start: u8,
    pub meta: Meta,
    pub unfunded: bool,
    pub o: Opts,
}
pub struct C23;

fn put_cli_mint(w: &mut World, vm: &mut Vm, k: Pubkey, c: &SetupCase) {
    match c.state {
        0 => create_mint(w, vm, k, &c.cfg, None),
        1 => {}
        2 => w.put(k, MOCK_META, vm.rent(82), vec![1; 82]),
        3 => {
            let m = key("some-other-mint", 0);
            create_mint(w, vm, m, &c.cfg, None);
            create_account(w, vm, k, m, c.cfg.prog(), &c.cfg.types(), key("somebody", 0), &[], AcctOpts::default());
        }
        _ => w.put(k, c.cfg.prog(), vm.rent(82), vec![0; 82]),
    }
}

impl Prop for C23 {
    type Case = SetupCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "the tool submitted or simulated a transaction the chain accepted, or printed addresses"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the node is a stand-in that answers over loopback and executes transactions in the VM"]
    }
    fn threads(&self) -> u64 {
        40
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<SetupCase> {
        let cmd = prop_oneof![
            1 => Just(Cmd::FindPdas),
            4 => any::<bool>().prop_map(|idempotent| Cmd::CreateMint { idempotent }),
            3 => any::<bool>().prop_map(|idempotent| Cmd::CreateEscrow { idempotent }),
            3 => (0u8..4).prop_map(|dest| Cmd::CloseStuck { dest }),
            3 => (prop_oneof![1 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8)], prop_oneof![1 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8)]).prop_map(|(source, owner)| Cmd::SyncSpl { source, owner }),
            4 => (prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)], 0u8..3).prop_map(|(source, owner)| Cmd::Sync22 { source, owner }),
        ];
        let fund = || prop_oneof![3 => Just((0u8, 0u32)), 1 => Just((1u8, 0u32)), 2 => (1u8..3, prop_oneof![1 => 0u32..3, 4 => 0u32..2_000_000]), 1 => (3u8..5, 0u32..2_000_000)];
        (
            cmd,
            prop_oneof![1 => mint_cfg(Focus::Wrap), 1 => p_close::cfg09()],
            prop_oneof![10 => Just(0u8), 1 => 1u8..5],
            any::<bool>(),
            prop::bool::weighted(0.25),
            [fund(), fund()],
            prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
            prop::option::weighted(0.8, p_close::cfg09()),
            (prop_oneof![1 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)], 0u8..4, meta(0, 30, 5), prop::bool::weighted(0.1)),
            opts(),
        )
            .prop_map(|(cmd, cfg, state, t22, mut made, fund, mut escrow, renewed, (kind, start, meta, unfunded), o)| {
                if matches!(cmd, Cmd::CloseStuck { .. }) && fund[0].0 != 4 {
                    (made, escrow) = (true, 1);
                }
                SetupCase { cmd, cfg, state, t22, made, fund, escrow, renewed, kind, start, meta, unfunded, o }
            })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &SetupCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let payer = c.o.payer().pk;
        let mut w = World::default();
        let mut umint = key("cli-mint", 0);
        let wprog = prog_id(c.t22);
        let wp = wprog.to_string();
        let mut plan;
        let args;
        let dests = [key("cli-dest", 0), payer, cfg_kp().pk, authority(&umint)];
        match &c.cmd {
            Cmd::FindPdas | Cmd::CreateMint { .. } | Cmd::CreateEscrow { .. } | Cmd::CloseStuck { .. } => {
                let mut c2 = c.clone();
                if matches!(c.cmd, Cmd::CloseStuck { .. }) && c.state == 0 && c.renewed.is_some() {
                    c2.cfg.t22 = true;
                    c2.cfg.native = false;
                    c2.cfg = c2.cfg.norm();
                }
                if c2.cfg.native {
                    umint = if c2.cfg.t22 { NATIVE22 } else { NATIVE };
                }
                let um = umint.to_string();
                put_cli_mint(&mut w, vm, umint, &c2);
                let uprog = w.get(vm, &umint).owner;
                let known = uprog == SPL || uprog == T22;
                let p = Pair::new(umint, if known { uprog } else { SPL }, wprog);
                let space = if c.t22 { p_create::tlv_space(&p_create::expected_tlv(Deployment::Main, &p)) } else { 82 };
                for (k, (kind, n), len) in [(p.wmint, c.fund[0], space), (p.backptr, c.fund[1], 32)] {
                    let need = vm.rent(len);
                    let l = match kind {
                        0 => 0,
                        1 => need.saturating_sub(n as u64),
                        2 => (n as u64).max(1),
                        3 => need + n as u64,
                        _ => need / 2,
                    };
                    if l > 0 {
                        w.fund(k, l);
                    }
                }
                let is_mint = c2.state == 0;
                if c.made && is_mint {
                    w.fund(p.wmint, vm.rent(space));
                    w.fund(p.backptr, vm.rent(32));
                    w.must(vm, &ix_create_mint(&p, false));
                }
                match c.escrow {
                    1 if is_mint => {
                        let _ = create_ata(&mut w, vm, p.wauth, umint, uprog);
                    }
                    2 => w.fund(p.escrow, 890_880),
                    _ => {}
                }
                match &c.cmd {
                    Cmd::FindPdas => {
                        args = strs(&["find-pdas", &um, &wp]);
                        plan = Plan::new(vec![]);
                        plan.fields = vec![
                            f("wrappedMintAddress", "Wrapped mint address:", p.wmint),
                            f("wrappedMintAuthority", "Wrapped mint authority:", p.wauth),
                            f("wrappedBackpointerAddress", "Wrapped backpointer address:", p.backptr),
                            f("unwrappedEscrow", "Unwrapped escrow address:", p.escrow),
                        ];
                        if c2.state == 1 {
                            plan.refuse = Some("the mint does not exist".into());
                        }
                        // whose token it is cannot be told from an account no token program owns
                        plan.judged = c2.state == 1 || known;
                    }
                    Cmd::CreateMint { idempotent } => {
                        args = idem(strs(&["create-mint", &um, &wp]), *idempotent);
                        let lack = [vm.rent(space).saturating_sub(w.lamports(&p.wmint)), vm.rent(32).saturating_sub(w.lamports(&p.backptr))];
                        let mut ixs = vec![];
                        for (k, n) in [(p.wmint, lack[0]), (p.backptr, lack[1])] {
                            if n > 0 {
                                ixs.push(transfer_ix(payer, k, n));
                            }
                        }
                        ixs.push(ix_create_mint(&p, *idempotent));
                        plan = Plan::new(ixs);
                        plan.sig = SigField::One;
                        plan.fields = vec![
                            f("unwrappedMintAddress", "Unwrapped mint address:", umint),
                            f("wrappedMintAddress", "Wrapped mint address:", p.wmint),
                            f("wrappedBackpointerAddress", "Wrapped backpointer address:", p.backptr),
                            f("fundedWrappedMintLamports", "Funded wrapped mint lamports:", lack[0]),
                            f("fundedBackpointerLamports", "Funded backpointer lamports:", lack[1]),
                        ];
                        st.hit(format!("create-mint, topping up {}", lack.iter().filter(|n| **n > 0).count()));
                    }
                    Cmd::CreateEscrow { idempotent } => {
                        args = idem(strs(&["create-escrow-account", &um, &wp]), *idempotent);
                        // initialised: a token account is there
                        let there = tok::acct(w.data(&p.escrow)).is_some();
                        let ata_ix = spl_associated_token_account_interface::instruction::create_associated_token_account(&payer, &p.wauth, &umint, &uprog);
                        plan = Plan::new(if there { vec![] } else { vec![ata_ix] });
                        plan.sig = if there { SigField::None } else { SigField::One };
                        if there && !idempotent {
                            plan.refuse = Some("the escrow exists".into());
                        }
                        if !is_mint {
                            plan.refuse = Some("this is no mint".into());
                        }
                        plan.fields = vec![
                            f("escrowAccountAddress", "Escrow Account Address:", p.escrow),
                            f("escrowAccountOwner", "Escrow Account Owner (wrapped mint authority):", p.wauth),
                            f("unwrappedTokenProgramId", "Unwrapped Token Program ID:", uprog),
                        ];
                    }
                    Cmd::CloseStuck { dest } => {
                        if c2.state == 0 && c2.cfg.t22 && !c2.cfg.native {
                            if let Some(n) = &c.renewed {
                                w.a.remove(&umint);
                                create_mint(&mut w, vm, umint, n, None);
                            }
                        }
                        let dest = dests[*dest as usize % 4];
                        args = strs(&["close-stuck-escrow", &um, &dest.to_string(), &wp]);
                        plan = Plan::new(vec![ix_close_stuck(&p, dest)]);
                        plan.sig = SigField::Many;
                        if uprog != T22 {
                            plan.refuse = Some("not a Token-2022 mint".into());
                        }
                        plan.fields = vec![f("unwrappedMint", "Unwrapped mint:", umint), f("escrowAccount", "Escrow account:", p.escrow)];
                    }
                    _ => unreachable!(),
                }
            }
            Cmd::SyncSpl { source, owner } | Cmd::Sync22 { source, owner } => {
                let to_spl = matches!(c.cmd, Cmd::SyncSpl { .. });
                let mut l = SyncLab::new(vm, c.kind, c.start, to_spl);
                let start = l.at;
                l.write(vm, start, c.meta.clone());
                let unset = c.kind == 1 && c.start == 3;
                if unset {
                    // the metadata is at the mint's Metaplex address
                    l.write(vm, 1, c.meta.clone());
                    let ix = spl_token_2022_interface::extension::metadata_pointer::instruction::update(&T22, &l.p.umint, &admin_key(), &[], None).unwrap();
                    l.w.must(vm, &ix);
                    l.at = 1;
                }
                if !c.unfunded {
                    l.w.fund(l.p.wmint, 1_000_000_000);
                    l.w.fund(l.p.wauth, 1_000_000_000);
                }
                let right = l.extra_accounts();
                let p = l.p.clone();
                umint = p.umint;
                w = std::mem::take(&mut l.w);
                let um = umint.to_string();
                if c.state == 1 {
                    w.a.remove(&umint);
                }
                let src = match source {
                    0 => None,
                    1 => Some(right.first().copied().unwrap_or(umint)),
                    _ => Some(key("unrelated-account", 0)),
                };
                let own = src.and_then(|_| match owner {
                    0 => None,
                    1 => right.get(1).copied(),
                    _ => Some(MOCK_META2),
                });
                let (name, fs, fo) = if to_spl { ("sync-metadata-to-spl-token", "--source-metadata", "--owner-program") } else { ("sync-metadata-to-token2022", "--metadata-account", "--metadata-program-id") };
                let mut a = strs(&[name, &um]);
                if let Some(k) = src {
                    a.extend(strs(&[fs, &k.to_string()]));
                }
                if let Some(k) = own {
                    a.extend(strs(&[fo, &k.to_string()]));
                }
                args = a;
                let mut extra: Vec<Pubkey> = src.into_iter().chain(own).collect();
                let mut used = src;
                if src.is_none() && !to_spl {
                    // "For SPL Token mints, this will be the Metaplex Metadata PDA. For Token-2022 mints,
                    // the metadata pointer extension is checked first, falling back to the Metaplex PDA"
                    used = match (c.kind, l.at) {
                        (1, 0) => None,
                        (1, 2) => Some(right[0]),
                        _ => Some(metaplex_pda(&umint)),
                    };
                    extra = used.into_iter().collect();
                    st.hit(format!("sync22 resolved, kind {} at {}{}", c.kind, l.at, if unset { " (unset)" } else { "" }));
                }
                plan = Plan::new(vec![if to_spl { ix_sync_spl(&p, &extra) } else { ix_sync22(&p, &extra) }]);
                if c.state == 1 {
                    plan.refuse = Some("the mint does not exist".into());
                }
                plan.sig = if to_spl { SigField::One } else { SigField::Many };
                plan.fields = vec![
                    f("unwrappedMint", "Unwrapped mint:", umint),
                    f("wrappedMint", "Wrapped mint:", p.wmint),
                    f("wrappedMintAuthority", "Wrapped mint authority:", p.wauth),
                    ("sourceMetadata", "Source metadata:", used.map(|k| k.to_string())),
                ];
                if to_spl {
                    plan.fields.push(f("metaplexMetadata", "Metaplex metadata account:", metaplex_pda(&p.wmint)));
                    plan.fields.push(("ownerProgram", "Owner program:", own.map(|k| k.to_string())));
                } else {
                    plan.fields.push(("metadataProgramId", "Metadata program id:", own.map(|k| k.to_string())));
                }
            }
        }
        w.set_lamports(payer, c.o.purse);
        w.a.retain(|_, a| a.lamports > 0);
        let name = args[0].clone();
        let before = w.clone();
        let s = Scratch::new();
        let mut args = args;
        if let Some(x) = spoil(&c.o, &mut args) {
            plan.refuse = Some(x);
            plan.judged = true;
            st.hit("malformed argument");
        }
        let argv = c.o.args(&s, &args, &[]);
        let mut node = Node::new(vm, &mut w);
        node.fault = c.o.fault();
        let d = run_cli(&mut node, &s.0, &argv);
        let what = format!("{argv:?}");
        let ok = judge(&mut node, &before, &c.o, &payer, &plan, &d, &what, st)?;
        st.nontrivial = ok;
        st.hit(format!("{name} {}{}", if c.o.dry { "dry " } else { "" }, if ok { "succeeds" } else { "fails" }));
        if ok && c.escrow == 2 && name == "create-escrow-account" {
            st.hit("escrow address held lamports");
        }
        Ok(())
    }
}


// ---- wrap and unwrap ----
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Give {
    Omit,
    Right,
    Wrong,
}
fn give() -> BoxedStrategy<Give> {
    prop_oneof![8 => Just(Give::Omit), 8 => Just(Give::Right), 1 => Just(Give::Wrong)].boxed()
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Who {
    /// the fee payer holds the tokens
    Payer,
    /// someone else's key
    Auth,
    /// the payer, or someone else, approved by the holder
    Delegate { other: bool, allowance: u8 },
    /// m of n; the payer may be the first of them
    Multi {
        m: u8,
        n: u8,
        #[serde(default)]
        payer: bool,
    },
}
/// Tokens to move and everything around them.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Move {
    pub unwrap: bool,
    pub cfg: MintCfg,
    pub t22: bool,
    pub balance: u64,
    pub amount: Amt,
    pub who: Who,
    pub give_mint: Give,
    pub give_uprog: Give,
    pub give_wprog: Give,
    /// 0 the payer's associated account (wrap: by omission), 1 somebody's account, 2 absent, 3 of another mint
    pub rcpt: u8,
    /// source: 0 there, 1 absent, 2 not a token account
    pub src: u8,
}
pub fn mv() -> BoxedStrategy<Move> {
    let who = prop_oneof![
        3 => Just(Who::Payer),
        3 => Just(Who::Auth),
        2 => (any::<bool>(), any::<u8>()).prop_map(|(other, allowance)| Who::Delegate { other, allowance }),
        3 => (1u8..5, 1u8..5, prop::bool::weighted(0.3)).prop_map(|(a, b, payer)| Who::Multi { m: a.min(b), n: a.max(b), payer }),
    ];
    (
        (any::<bool>(), mint_cfg(Focus::Wrap), any::<bool>()),
        (1u64..1_000_000_000_000, amt(), who),
        (give(), give(), give()),
        (prop_oneof![6 => Just(0u8), 6 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], prop_oneof![24 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]),
    )
        .prop_map(|((unwrap, mut cfg, t22), (balance, amount, who), (give_mint, give_uprog, give_wprog), (rcpt, src))| {
            cfg.native = false;
            cfg.ext &= !(xb::HOOK | xb::NON_TRANSFERABLE | xb::CT_FEE);
            Move { unwrap, cfg: cfg.norm(), t22, balance, amount, who, give_mint, give_uprog, give_wprog, rcpt, src }
        })
        .boxed()
}
pub fn auth_kp() -> Kp {
    Kp::new("cli-authority", 0)
}
pub fn member_kp(i: usize) -> Kp {
    Kp::new("cli-member", i as u64)
}
pub struct Scene {
    pub w: World,
    pub p: Pair,
    pub source: Pubkey,
    pub rcpt: Pubkey,
    pub amount: u64,
    pub authority: Pubkey,
    pub multi: bool,
    /// multisig members, all of them
    pub members: usize,
    pub need: usize,
    /// the multisig's keys
    pub keys: Vec<Pubkey>,
    pub other_mint: Pubkey,
}
pub fn scene(vm: &mut Vm, m: &Move, payer: &Pubkey) -> Scene {
    let mut w = World::default();
    let umint = key("cli-unwrapped", 0);
    let uprog = m.cfg.prog();
    let wprog = prog_id(m.t22);
    create_mint(&mut w, vm, umint, &m.cfg, None);
    let p = Pair::new(umint, uprog, wprog);
    create_pair(&mut w, vm, &p);
    let frozen = m.cfg.ext & xb::DEFAULT_FROZEN != 0;
    let thaw = |w: &mut World, vm: &mut Vm, k: Pubkey| {
        if frozen {
            w.must(vm, &ix_freeze(uprog, k, umint, false));
        }
    };
    thaw(&mut w, vm, p.escrow);
    let utypes = m.cfg.types();
    let wtypes = crate::p_create::spl_types(Deployment::Main, m.t22);
    // the side tokens leave from
    let (smint, sprog, stypes) = if m.unwrap { (p.wmint, wprog, wtypes.clone()) } else { (umint, uprog, utypes.clone()) };
    let (rmint, rprog, rtypes) = if m.unwrap { (umint, uprog, utypes.clone()) } else { (p.wmint, wprog, wtypes.clone()) };
    let source = key("cli-source", 0);
    let holder = Kp::new("cli-holder", 0).pk;
    let (mut members, mut need) = (0, 0);
    let mut keys = vec![];
    let (owner, authority) = match m.who {
        Who::Payer => (*payer, *payer),
        Who::Auth => (auth_kp().pk, auth_kp().pk),
        Who::Delegate { other, .. } => (holder, if other { auth_kp().pk } else { *payer }),
        Who::Multi { m: k, n, payer: p0 } => {
            let ms = key("cli-multisig", 0);
            let all: Vec<Pubkey> = (0..n as usize).map(|i| if p0 && i == 0 { *payer } else { member_kp(i).pk }).collect();
            create_multisig(&mut w, vm, ms, sprog, &all, k);
            (members, need) = (n as usize, k as usize);
            keys = all;
            (ms, ms)
        }
    };
    let signers: Vec<Pubkey> = keys[..need].to_vec();
    create_account(&mut w, vm, source, smint, sprog, &stypes, owner, &signers, AcctOpts::default());
    let amount = m.amount.of(m.balance);
    let setup = key("cli-setup-holder", 0);
    // somebody deposits, so that wrapped tokens exist
    let dep = key("cli-deposit", 0);
    create_account(&mut w, vm, dep, umint, uprog, &utypes, setup, &[], AcctOpts::default());
    thaw(&mut w, vm, dep);
    if m.unwrap {
        w.must(vm, &ix_mint_to(uprog, umint, dep, mint_authority_key(), m.balance));
        let _ = w.exec(vm, &ix_wrap(&p, source, dep, rs(setup), &[], m.balance));
    } else {
        thaw(&mut w, vm, source);
        w.must(vm, &ix_mint_to(uprog, umint, source, mint_authority_key(), m.balance));
    }
    if let Who::Delegate { other, allowance } = m.who {
        let d = if other { auth_kp().pk } else { *payer };
        let a = if allowance < 40 { amount.saturating_sub(1 + allowance as u64) } else { amount.saturating_add(allowance as u64) };
        w.must(vm, &ix_approve(sprog, source, d, rs(holder), &[], a));
    }
    // another mint of the same program, with a pair of its own
    let other_mint = key("cli-other-mint", 0);
    let oc = MintCfg { t22: m.cfg.t22, native: false, decimals: 2, freeze: false, ext: 0, fees: vec![] };
    create_mint(&mut w, vm, other_mint, &oc, None);
    create_pair(&mut w, vm, &Pair::new(other_mint, uprog, wprog));
    let rcpt = match m.rcpt {
        0 => {
            let k = ata(payer, &rmint, &rprog);
            if create_ata(&mut w, vm, *payer, rmint, rprog).is_err() {
                abort("recipient".into());
            }
            k
        }
        1 => {
            let k = key("cli-recipient", 0);
            create_account(&mut w, vm, k, rmint, rprog, &rtypes, key("cli-friend", 0), &[], AcctOpts::default());
            k
        }
        2 => key("cli-absent", 0),
        _ => {
            let k = key("cli-foreign", 0);
            create_account(&mut w, vm, k, if m.unwrap { other_mint } else { wrapped_mint(&other_mint, &wprog) }, rprog, &if m.unwrap { vec![] } else { wtypes.clone() }, key("cli-friend", 0), &[], AcctOpts::default());
            k
        }
    };
    if m.unwrap && m.rcpt < 2 {
        thaw(&mut w, vm, rcpt);
    }
    match m.src {
        1 => {
            w.a.remove(&source);
        }
        2 => {
            w.a.remove(&source);
            w.fund(source, 5_000_000);
        }
        _ => {}
    }
    Scene { w, p, source, rcpt, amount, authority, multi: need > 0, members, need, keys, other_mint }
}
impl Scene {
    /// Instruction, command line and reasons to refuse; `members` are the signing ones.
    pub fn plan(&self, m: &Move, members: &[usize]) -> (Plan, Vec<String>) {
        let extra: Vec<AccountMeta> = members.iter().map(|i| rs(self.keys[*i])).collect();
        let auth = if extra.is_empty() { rs(self.authority) } else { r(self.authority) };
        let p = &self.p;
        let mut args;
        let mut plan;
        if m.unwrap {
            args = strs(&["unwrap", &self.source.to_string(), &self.rcpt.to_string(), &self.amount.to_string()]);
            plan = Plan::new(vec![ix_unwrap(p, self.rcpt, self.source, auth, &extra, self.amount)]);
            plan.fields = vec![
                f("unwrappedTokenProgram", "Unwrapped token program:", p.uprog),
                f("unwrappedMintAddress", "Unwrapped mint address:", p.umint),
                f("wrappedMintAddress", "Wrapped mint address:", p.wmint),
                f("wrappedTokenAccount", "Wrapped token account:", self.source),
                f("escrowAccount", "Escrow account:", p.escrow),
                f("recipientTokenAccount", "Recipient unwrapped token account:", self.rcpt),
                f("amount", "Amount unwrapped:", self.amount),
            ];
        } else {
            args = strs(&["wrap", &self.source.to_string(), &p.wprog.to_string(), &self.amount.to_string()]);
            if m.rcpt != 0 {
                args.extend(strs(&["--recipient-token-account", &self.rcpt.to_string()]));
            }
            plan = Plan::new(vec![ix_wrap(p, self.rcpt, self.source, auth, &extra, self.amount)]);
            plan.fields = vec![
                f("unwrappedMintAddress", "Unwrapped mint address:", p.umint),
                f("wrappedMintAddress", "Wrapped mint address:", p.wmint),
                f("unwrappedTokenAccount", "Unwrapped token account:", self.source),
                f("recipientTokenAccount", "Recipient wrapped token account:", self.rcpt),
                f("escrowAccount", "Escrow account:", p.escrow),
                f("amount", "Amount:", self.amount),
            ];
        }
        plan.sig = SigField::Many;
        let mut say = |flag: &str, g: Give, right: Pubkey, wrong: Pubkey| {
            match g {
                Give::Omit => return,
                Give::Right => {}
                Give::Wrong => plan.refuse = Some(format!("{flag} contradicts the accounts")),
            }
            args.extend(strs(&[flag, &if g == Give::Right { right } else { wrong }.to_string()]));
        };
        let flip = |k: Pubkey| if k == SPL { T22 } else { SPL };
        say("--unwrapped-mint", m.give_mint, p.umint, self.other_mint);
        say("--unwrapped-token-program", m.give_uprog, p.uprog, flip(p.uprog));
        if m.unwrap {
            say("--wrapped-token-program", m.give_wprog, p.wprog, flip(p.wprog));
        }
        if m.src != 0 {
            plan.refuse = Some("the source is no token account".into());
        }
        if m.rcpt == 3 {
            plan.refuse = Some("the recipient is of another mint".into());
        }
        if m.rcpt == 2 {
            plan.refuse = Some("there is no recipient account".into());
        }
        (plan, args)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MoveCase {
    pub m: Move,
    /// members that sign (others do not)
    pub signing: u8,
    /// how the authority is named: 0 path, 1 file:, 2 its address only (it then cannot sign)
    pub named: u8,
    pub blockhash: bool,
    pub o: Opts,
}
pub struct C24;
impl Prop for C24 {
    type Case = MoveCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "the tool submitted or simulated a wrap or unwrap the chain accepted"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the node is a stand-in that answers over loopback and executes transactions in the VM", "mints without transfer hooks: the tool has no way to name a hook's accounts"]
    }
    fn threads(&self) -> u64 {
        40
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<MoveCase> {
        (mv(), any::<u8>(), prop_oneof![5 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)], any::<bool>(), opts())
            .prop_map(|(m, signing, named, blockhash, o)| MoveCase { m, signing, named, blockhash, o })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &MoveCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let payer = c.o.payer().pk;
        let sc = scene(vm, &c.m, &payer);
        // mostly enough members, sometimes one too few
        let members: Vec<usize> = if sc.multi {
            let take = if c.signing < 20 { sc.need - 1 } else if c.signing > 200 { sc.members } else { sc.need };
            let rot = c.signing as usize % sc.members;
            (0..take).map(|i| (i + rot) % sc.members).collect()
        } else {
            vec![]
        };
        let (mut plan, mut args) = sc.plan(&c.m, &members);
        let s = Scratch::new();
        let path = |k: &Kp, name: &str, n: u8| {
            let f = s.file(name, &k.json());
            match n {
                0 => f,
                1 => format!("file:{f}"),
                _ => k.pk.to_string(),
            }
        };
        if sc.multi {
            args.extend(strs(&["--transfer-authority", &sc.authority.to_string()]));
            if members.is_empty() {
                // the multisig's address stands for a signer that cannot sign
                plan.signable = false;
            }
            for i in &members {
                let kp = if sc.keys[*i] == payer { c.o.payer() } else { member_kp(*i) };
                args.extend(strs(&["--multisig-signer", &path(&kp, &format!("m{i}.json"), c.named.min(1))]));
            }
        } else if sc.authority != payer {
            args.extend(strs(&["--transfer-authority", &path(&auth_kp(), "auth.json", c.named)]));
            plan.signable = c.named != 2;
        } else if c.signing > 170 {
            args.extend(strs(&["--transfer-authority", &path(&c.o.payer(), "same.json", c.named.min(1))]));
        }
        let bh = key("blockhash", 2).to_bytes();
        if c.blockhash || sc.multi {
            args.extend(strs(&["--blockhash", &bs58::encode(bh).into_string()]));
            plan.blockhash = Some(bh);
        }
        let mut w = sc.w.clone();
        w.set_lamports(payer, c.o.purse);
        w.a.retain(|_, a| a.lamports > 0);
        let before = w.clone();
        if let Some(x) = spoil(&c.o, &mut args) {
            plan.refuse = Some(x);
            st.hit("malformed argument");
        }
        let argv = c.o.args(&s, &args, &[]);
        let mut node = Node::new(vm, &mut w);
        node.fault = c.o.fault();
        let d = run_cli(&mut node, &s.0, &argv);
        let ok = judge(&mut node, &before, &c.o, &payer, &plan, &d, &format!("{argv:?}"), st)?;
        st.nontrivial = ok;
        st.hit(format!("{} {}{}", args[0], if c.o.dry { "dry " } else { "" }, if ok { "succeeds" } else { "fails" }));
        let who = match c.m.who {
            Who::Payer => "payer",
            Who::Auth => "other key",
            Who::Delegate { .. } => "delegate",
            Who::Multi { .. } => "multisig",
        };
        if ok {
            st.hit(format!("authority: {who}"));
            if members.iter().any(|i| sc.keys[*i] == payer) {
                st.hit("the payer is a member of the multisig");
            }
        }
        if plan.refuse.is_some() {
            st.hit("contradiction or missing account");
        }
        Ok(())
    }
}

// ---- C25: signing apart ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OffCase {
    pub m: Move,
    /// which of the required signers sign elsewhere
    pub offline: u8,
    /// those who sign elsewhere pass the signatures on from one to the next
    pub chain: bool,
    /// without a node, where the command line says everything
    pub dead: bool,
    /// the first to sign takes the node's blockhash
    pub fresh: bool,
    /// the blockhash is too old when the transaction is submitted
    pub stale: bool,
    /// what happens to one of the signatures: 0 nothing, 1 lost, 2 damaged, 3 for another
    /// amount, 4 for another blockhash, 5 somebody else's
    pub tamper: u8,
    pub which: u8,
    pub fmts: Vec<u8>,
    pub dry_sign: bool,
    pub o: Opts,
}
pub struct C25;

/// What a `--sign-only` run printed: message, signers, absent signers, bad ones.
#[derive(Debug)]
struct Signed {
    blockhash: String,
    message: Vec<u8>,
    signers: Vec<(String, String)>,
    absent: Vec<String>,
    bad: Vec<String>,
}
fn read_signed(fmt: u8, out: &str) -> Option<Signed> {
    let list = |v: &Value| v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect::<Vec<_>>()).unwrap_or_default();
    let pair = |s: String| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()));
    if fmt == 2 || fmt == 3 {
        let v: Value = serde_json::from_str(out.trim()).ok()?;
        let d = &v["signOnlyData"];
        return Some(Signed {
            blockhash: d["blockhash"].as_str()?.to_string(),
            message: B64.decode(d["message"].as_str()?).ok()?,
            signers: list(&d["signers"]).into_iter().map(pair).collect::<Option<_>>()?,
            absent: list(&d["absent"]),
            bad: list(&d["badSig"]),
        });
    }
    let after = |l: &str| out.lines().find_map(|x| x.trim().strip_prefix(l).map(|s| s.trim().to_string()));
    let section = |l: &str| -> Vec<String> {
        out.lines().skip_while(|x| !x.trim().starts_with(l)).skip(1).take_while(|x| x.starts_with(' ') && x.trim().len() > 30).map(|x| x.trim().to_string()).collect()
    };
    Some(Signed {
        blockhash: after("Blockhash:")?,
        message: B64.decode(after("Transaction Message:")?).ok()?,
        signers: section("Signers (Pubkey=Signature):").into_iter().map(pair).collect::<Option<_>>()?,
        absent: section("Absent Signers (Pubkey):"),
        bad: section("Bad Signatures (Pubkey):"),
    })
}

impl Prop for C25 {
    type Case = OffCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "at least one signature was made in a run of its own and the assembled transaction landed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the node is a stand-in that answers over loopback, verifies ed25519 signatures and executes transactions in the VM"]
    }
    fn threads(&self) -> u64 {
        40
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_500 } else { 30_000 }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<OffCase> {
        (
            (mv(), any::<u8>(), any::<bool>(), any::<bool>()),
            (prop::bool::weighted(0.3), prop::bool::weighted(0.1), prop_oneof![6 => Just(0u8), 5 => 1u8..6], any::<u8>()),
            vec(prop_oneof![3 => Just(2u8), 1 => Just(3u8), 1 => Just(0u8), 1 => Just(1u8), 1 => Just(5u8)], 6),
            prop::bool::weighted(0.1),
            opts(),
        )
            .prop_map(|((mut m, mut offline, chain, dead), (fresh, stale, tamper, which), fmts, dry_sign, mut o)| {
                for g in [&mut m.give_mint, &mut m.give_uprog, &mut m.give_wprog] {
                    if *g == Give::Wrong {
                        *g = Give::Right;
                    }
                }
                m.rcpt &= 1;
                m.src = 0;
                if let Who::Delegate { allowance, .. } = &mut m.who {
                    *allowance |= 64;
                }
                if dead {
                    (m.give_mint, m.give_uprog) = (Give::Right, Give::Right);
                }
                if offline % 32 == 0 {
                    offline |= 3;
                }
                o.purse = 10_000_000_000;
                OffCase { m, offline, chain, dead, fresh, stale, tamper, which, fmts, dry_sign, o }
            })
            .boxed()
    }
    fn run(&self, vms: &mut [Vm], c: &OffCase, st: &mut Stats) -> Result<(), Violation> {
        let vm = &mut vms[0];
        let payer = c.o.payer();
        let sc = scene(vm, &c.m, &payer.pk);
        let members: Vec<usize> = (0..sc.need).map(|i| (i + c.which as usize) % sc.members).collect();
        let (mut plan, base) = sc.plan(&c.m, &members);
        // everyone who signs: the payer, then the authority or the members
        let mut parties = vec![payer.clone()];
        if sc.multi {
            parties.extend(members.iter().filter(|i| sc.keys[**i] != payer.pk).map(|i| member_kp(*i)));
        } else if sc.authority != payer.pk {
            parties.push(auth_kp());
        }
        let away: Vec<usize> = (0..parties.len()).filter(|i| c.offline >> (i % 8) & 1 == 1).collect();
        let mut w = sc.w.clone();
        w.set_lamports(payer.pk, c.o.purse);
        w.a.retain(|_, a| a.lamports > 0);
        let before = w.clone();
        let s = Scratch::new();
        // the command line with each party's key, or only its address
        let line = |here: &dyn Fn(usize) -> bool, o: &Opts, more: &[String]| -> Vec<String> {
            let name = |i: usize| if here(i) { s.file(&format!("party{i}.json"), &parties[i].json()) } else { parties[i].pk.to_string() };
            let mut a = base.clone();
            if sc.multi {
                a.extend(strs(&["--transfer-authority", &sc.authority.to_string()]));
                for i in &members {
                    let k = parties.iter().position(|p| p.pk == sc.keys[*i]).unwrap();
                    a.extend(strs(&["--multisig-signer", &name(k)]));
                }
            } else if parties.len() > 1 {
                a.extend(strs(&["--transfer-authority", &name(1)]));
            }
            a.extend_from_slice(more);
            let o = Opts { payer: 0, ..o.clone() };
            o.args(&s, &a, &strs(&["--fee-payer", &name(0)]))
        };
        let given = bs58::encode(key("blockhash", 2).to_bytes()).into_string();
        let mut bh = if c.fresh && !sc.multi && !away.is_empty() && !(c.dead && !c.m.unwrap) { None } else { Some(given) };
        let want = merged(&payer.pk, &plan.ixs);
        let mut message: Option<Vec<u8>> = None;
        let mut sigs: Vec<(usize, [u8; 64])> = vec![];
        for (n, &i) in away.iter().enumerate() {
            let o = Opts { fmt: c.fmts[n % 6], dry: c.dry_sign, land: false, nth: None, ..c.o.clone() };
            let mut more = strs(&["--sign-only"]);
            if let Some(b) = &bh {
                more.extend(strs(&["--blockhash", b]));
            }
            if c.chain && bh.is_some() {
                for (j, g) in &sigs {
                    more.extend(strs(&["--signer", &format!("{}={}", parties[*j].pk, bs58::encode(g).into_string())]));
                }
            }
            let mut argv = line(&|j| j == i, &o, &more);
            let dead = c.dead && !c.m.unwrap && bh.is_some();
            if dead {
                s.file("config.tmpl", &std::fs::read_to_string(s.0.join("config.tmpl")).unwrap().replace("{url}", DEAD_URL));
                argv = argv.iter().map(|a| a.replace("{url}", DEAD_URL)).collect();
            }
            let mut node = Node::new(vm, &mut w);
            let d = run_cli(&mut node, &s.0, &argv);
            let show = format!("{argv:?}\nexit {:?}\nstdout: {}\nstderr: {}", d.code, cut(&d.out), cut(&d.err));
            if !node.sent.is_empty() || node.w.diff(&before, &[]).is_some() {
                return viol("sign-only-sent", format!("asked only to sign, something was sent: {show}"));
            }
            if d.code != Some(0) {
                return viol("sign-only-failed", format!("signing alone failed{}: {show}", if dead { " without a node" } else { "" }));
            }
            plan.sig = SigField::None;
            check_output(&o, &plan, None, &d).map_err(|m| Violation { sig: "output".into(), msg: format!("{m}: {show}") })?;
            let Some(g) = read_signed(o.fmt, &d.out) else {
                return viol("sign-only-output", format!("no signing data is printed: {show}"));
            };
            let Some(tx) = decode_message(&g.message) else {
                return viol("sign-only-message", format!("the message does not decode: {show}"));
            };
            if let Some(x) = same_ixs(&want, &tx.ixs) {
                return viol("instructions", format!("signed: {x}: {show}"));
            }
            if tx.keys[0] != payer.pk {
                return viol("payer", format!("signed with payer {}: {show}", tx.keys[0]));
            }
            let b = bh.get_or_insert_with(|| bs58::encode(key("blockhash", 1).to_bytes()).into_string()).clone();
            if bs58::encode(tx.blockhash).into_string() != b || g.blockhash != b {
                return viol("blockhash", format!("signed for another blockhash than {b}: {show}"));
            }
            if message.get_or_insert_with(|| g.message.clone()) != &g.message {
                return viol("messages-differ", format!("two signers of one transaction signed different messages: {show}"));
            }
            let mut signed: Vec<usize> = vec![i];
            if c.chain {
                signed.extend(sigs.iter().map(|x| x.0));
            }
            let list = |f: &dyn Fn(&usize) -> bool| {
                let mut v: Vec<String> = (0..parties.len()).filter(|j| f(j)).map(|j| parties[j].pk.to_string()).collect();
                v.sort();
                v
            };
            let sorted = |mut v: Vec<String>| {
                v.sort();
                v
            };
            if sorted(g.signers.iter().map(|x| x.0.clone()).collect()) != list(&|j| signed.contains(j)) || sorted(g.absent.clone()) != list(&|j| !signed.contains(j)) || !g.bad.is_empty() {
                return viol("signers", format!("the signers are {signed:?} of {:?}: {show}", parties.iter().map(|k| k.pk.to_string()).collect::<Vec<_>>()));
            }
            for (k, v) in &g.signers {
                let raw: Option<[u8; 64]> = bs58::decode(v).into_vec().ok().and_then(|x| x.try_into().ok());
                let good = raw.is_some_and(|x| sig_ok(&k.parse().unwrap(), &g.message, &x));
                if !good {
                    return viol("signature", format!("{k}={v} does not sign the message: {show}"));
                }
                if *k == parties[i].pk.to_string() {
                    sigs.push((i, raw.unwrap()));
                }
            }
            st.hit(if dead { "signed without a node" } else { "signed with a node" });
        }
        plan.sig = SigField::Many;
        // one signature goes wrong
        let tamper = if sigs.is_empty() { 0 } else { c.tamper };
        if tamper > 0 {
            plan.signable = false;
            let n = c.which as usize % sigs.len();
            let msg = message.clone().unwrap();
            let i = sigs[n].0;
            let mut other = msg.clone();
            match tamper {
                1 => {
                    sigs.remove(n);
                }
                2 => sigs[n].1[c.offline as usize % 32] ^= 1 << (c.which % 8),
                3 => {
                    *other.last_mut().unwrap() ^= 1;
                    sigs[n].1 = parties[i].sign(&other);
                }
                4 => {
                    let at = msg.windows(32).position(|x| bs58::encode(x).into_string() == *bh.as_ref().unwrap()).unwrap();
                    other[at] ^= 1;
                    sigs[n].1 = parties[i].sign(&other);
                }
                _ => sigs[n].1 = Kp::new("cli-stranger", 0).sign(&msg),
            }
        }
        let mut more = vec![];
        if let Some(b) = &bh {
            more.extend(strs(&["--blockhash", b]));
            plan.blockhash = bs58::decode(b).into_vec().ok().and_then(|x| x.try_into().ok());
        }
        for (j, g) in &sigs {
            more.extend(strs(&["--signer", &format!("{}={}", parties[*j].pk, bs58::encode(g).into_string())]));
        }
        let argv = line(&|j| !away.contains(&j), &c.o, &more);
        let mut node = Node::new(vm, &mut w);
        node.fault = c.o.fault();
        if c.stale {
            node.latest = key("blockhash", 3).to_bytes();
            node.recent = vec![node.latest];
            plan.refuse = Some("the blockhash is too old".into());
        }
        let d = run_cli(&mut node, &s.0, &argv);
        let ok = judge(&mut node, &before, &c.o, &payer.pk, &plan, &d, &format!("{argv:?}"), st)?;
        st.nontrivial = ok && !c.o.dry && !away.is_empty();
        st.hit(format!("signature {}: {}", ["intact", "lost", "damaged", "for another amount", "for another blockhash", "somebody else's"][tamper as usize], if ok { "lands" } else { "refused" }));
        if st.nontrivial {
            st.hit(format!("{}, {} of {} apart{}", base[0], away.len(), parties.len(), if away.contains(&0) { ", payer apart" } else { "" }));
        }
        Ok(())
    }
}
