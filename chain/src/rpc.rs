//! Runs the command-line tool against a node stand-in: a JSON-RPC server over
//! loopback whose chain is the VM. Transactions are decoded, their signatures
//! and blockhash checked, executed atomically, charged, and rent-checked.
use {
    crate::{vm::*, world::*},
    base64::{engine::general_purpose::STANDARD as B64, Engine},
    ed25519_dalek::{Signer, SigningKey, VerifyingKey},
    serde_json::{json, Value},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::{
        collections::BTreeMap,
        io::{BufRead, BufReader, Read, Write},
        net::{TcpListener, TcpStream},
        path::{Path, PathBuf},
        process::{Command, Stdio},
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering},
            mpsc, Arc,
        },
        time::{Duration, Instant},
    },
};

pub const FEE_PER_SIG: u64 = 5000;

// ---- keys ----
#[derive(Clone)]
pub struct Kp {
    pub sk: SigningKey,
    pub pk: Pubkey,
}
impl Kp {
    pub fn new(tag: &str, i: u64) -> Kp {
        let sk = SigningKey::from_bytes(&key(tag, i).to_bytes());
        let pk = Pubkey::new_from_array(sk.verifying_key().to_bytes());
        Kp { sk, pk }
    }
    pub fn json(&self) -> String {
        let mut v = self.sk.to_bytes().to_vec();
        v.extend_from_slice(self.pk.as_ref());
        serde_json::to_string(&v).unwrap()
    }
    pub fn sign(&self, m: &[u8]) -> [u8; 64] {
        self.sk.sign(m).to_bytes()
    }
}
pub fn sig_ok(pk: &Pubkey, m: &[u8], sig: &[u8; 64]) -> bool {
    let Ok(v) = VerifyingKey::from_bytes(&pk.to_bytes()) else { return false };
    v.verify_strict(m, &ed25519_dalek::Signature::from_bytes(sig)).is_ok()
}

// ---- transactions on the wire ----
#[derive(Clone, Debug)]
pub struct Tx {
    pub sigs: Vec<[u8; 64]>,
    pub keys: Vec<Pubkey>,
    pub nsign: usize,
    pub blockhash: [u8; 32],
    pub ixs: Vec<Instruction>,
    pub message: Vec<u8>,
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn short(&mut self) -> Option<usize> {
        let mut v = 0usize;
        for i in 0..3 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as usize) << (7 * i);
            if b & 0x80 == 0 {
                return Some(v);
            }
        }
        None
    }
}
/// A message (legacy, or version 0 without lookup tables).
pub fn decode_message(message: &[u8]) -> Option<Tx> {
    let mut r = Rd(message);
    let mut first = r.u8()?;
    let v0 = first & 0x80 != 0;
    if v0 {
        first = r.u8()?;
    }
    let (ns, nrs, nru) = (first as usize, r.u8()? as usize, r.u8()? as usize);
    let nk = r.short()?;
    let mut keys = vec![];
    for _ in 0..nk {
        keys.push(Pubkey::new_from_array(r.take(32)?.try_into().ok()?));
    }
    if ns > nk || nrs > ns || nru + ns > nk {
        return None;
    }
    let blockhash = r.take(32)?.try_into().ok()?;
    let ni = r.short()?;
    let meta = |i: usize| -> Option<AccountMeta> {
        let pubkey = *keys.get(i)?;
        let is_signer = i < ns;
        let is_writable = if is_signer { i < ns - nrs } else { i < nk - nru };
        Some(AccountMeta { pubkey, is_signer, is_writable })
    };
    let mut ixs = vec![];
    for _ in 0..ni {
        let prog = r.u8()? as usize;
        let na = r.short()?;
        let mut accounts = vec![];
        for _ in 0..na {
            accounts.push(meta(r.u8()? as usize)?);
        }
        let nd = r.short()?;
        let data = r.take(nd)?.to_vec();
        ixs.push(Instruction { program_id: *keys.get(prog)?, accounts, data });
    }
    if v0 && r.short()? != 0 {
        return None;
    }
    if !r.0.is_empty() {
        return None;
    }
    Some(Tx { sigs: vec![], keys, nsign: ns, blockhash, ixs, message: message.to_vec() })
}
pub fn decode_tx(raw: &[u8]) -> Option<Tx> {
    let mut r = Rd(raw);
    let n = r.short()?;
    let mut sigs = vec![];
    for _ in 0..n {
        sigs.push(r.take(64)?.try_into().ok()?);
    }
    let mut tx = decode_message(r.0)?;
    if n != tx.nsign || raw.len() > 1232 {
        return None;
    }
    tx.sigs = sigs;
    Some(tx)
}

/// Instructions with account flags as a message carries them: merged over the
/// whole transaction, the payer signing and writable.
pub fn merged(payer: &Pubkey, ixs: &[Instruction]) -> Vec<Instruction> {
    let mut f: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    f.insert(*payer, (true, true));
    for m in ixs.iter().flat_map(|i| &i.accounts) {
        let e = f.entry(m.pubkey).or_default();
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    let mut v = ixs.to_vec();
    for m in v.iter_mut().flat_map(|i| &mut i.accounts) {
        (m.is_signer, m.is_writable) = f[&m.pubkey];
    }
    v
}
pub fn signers_of(payer: &Pubkey, ixs: &[Instruction]) -> usize {
    let mut v: Vec<Pubkey> = ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    v.push(*payer);
    v.sort();
    v.dedup();
    v.len()
}

/// What the chain makes of instructions whose signatures are in order.
pub fn apply(w: &World, vm: &mut Vm, payer: &Pubkey, nsig: usize, ixs: &[Instruction]) -> Result<World, Value> {
    let mut n = w.clone();
    let fee = FEE_PER_SIG * nsig as u64;
    let have = n.lamports(payer);
    if have == 0 {
        return Err(json!("AccountNotFound"));
    }
    if have < fee {
        return Err(json!("InsufficientFundsForFee"));
    }
    n.a.get_mut(payer).unwrap().lamports -= fee;
    for (i, ix) in ixs.iter().enumerate() {
        if !vm.programs.contains_key(&ix.program_id) {
            return Err(json!("ProgramAccountNotFound"));
        }
        if let Err(e) = n.exec(vm, ix) {
            let code = match e {
                solana_instruction::error::InstructionError::Custom(c) => json!({"Custom": c}),
                _ => json!("InvalidArgument"),
            };
            return Err(json!({"InstructionError": [i, code]}));
        }
    }
    // an account may not end below the rent-exempt minimum unless it was there before and did not gain
    for (k, a) in &n.a {
        let min = vm.rent(a.data.len());
        if a.lamports >= min || w.a.get(k) == Some(a) {
            continue;
        }
        let was = w.a.get(k);
        let ok = was.is_some_and(|b| b.lamports < vm.rent(b.data.len()) && b.data.len() == a.data.len() && a.lamports <= b.lamports);
        if !ok {
            return Err(json!({"InsufficientFundsForRent": {"account_index": 0}}));
        }
    }
    Ok(n)
}

// ---- the node ----
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fault {
    /// the transaction is accepted and then fails in its block
    pub land: bool,
    /// the n-th request is answered with an error
    pub nth: Option<usize>,
}
pub struct Sent {
    pub tx: Tx,
    pub ok: bool,
}
pub struct Node<'a> {
    pub vm: &'a mut Vm,
    pub w: &'a mut World,
    pub latest: [u8; 32],
    pub recent: Vec<[u8; 32]>,
    pub fault: Fault,
    pub requests: Vec<String>,
    pub sent: Vec<Sent>,
    pub simulated: Vec<(Tx, bool)>,
    pub undecodable: usize,
    status: BTreeMap<String, Value>,
}
impl<'a> Node<'a> {
    pub fn new(vm: &'a mut Vm, w: &'a mut World) -> Node<'a> {
        let latest = key("blockhash", 1).to_bytes();
        Node { vm, w, latest, recent: vec![latest, key("blockhash", 2).to_bytes()], fault: Fault::default(), requests: vec![], sent: vec![], simulated: vec![], undecodable: 0, status: BTreeMap::new() }
    }
    fn account(&self, k: &Pubkey) -> Value {
        let a = self.w.get(self.vm, k);
        if a.lamports == 0 {
            return Value::Null;
        }
        json!({"data": [B64.encode(&a.data), "base64"], "executable": a.executable, "lamports": a.lamports, "owner": a.owner.to_string(), "rentEpoch": u64::MAX, "space": a.data.len()})
    }
    fn checked(&mut self, tx: &Tx, verify: bool) -> Result<World, Value> {
        if verify {
            for (i, s) in tx.sigs.iter().enumerate() {
                if !sig_ok(&tx.keys[i], &tx.message, s) {
                    return Err(json!("SignatureFailure"));
                }
            }
        }
        if !self.recent.contains(&tx.blockhash) {
            return Err(json!("BlockhashNotFound"));
        }
        apply(self.w, self.vm, &tx.keys[0], tx.nsign, &tx.ixs)
    }
    fn handle(&mut self, req: &Value) -> Value {
        let m = req["method"].as_str().unwrap_or("").to_string();
        let p = &req["params"];
        self.requests.push(m.clone());
        let id = req["id"].clone();
        let fail = |code: i64, msg: &str, data: Value| json!({"jsonrpc": "2.0", "id": id, "error": {"code": code, "message": msg, "data": data}});
        if self.fault.nth == Some(self.requests.len() - 1) {
            return fail(-32603, "Internal error", Value::Null);
        }
        let ctx = json!({"slot": 100, "apiVersion": "3.0.0"});
        let pk = |v: &Value| v.as_str().and_then(|s| s.parse::<Pubkey>().ok());
        let tx_of = |v: &Value, enc: &Value| {
            let s = v.as_str()?;
            let raw = if enc.as_str() == Some("base64") { B64.decode(s).ok()? } else { bs58::decode(s).into_vec().ok()? };
            decode_tx(&raw)
        };
        let result = match m.as_str() {
            "getAccountInfo" => match pk(&p[0]) {
                Some(k) => json!({"context": ctx, "value": self.account(&k)}),
                None => return fail(-32602, "Invalid param", Value::Null),
            },
            "getMultipleAccounts" => {
                let v: Vec<Value> = p[0].as_array().map(|a| a.iter().map(|k| pk(k).map(|k| self.account(&k)).unwrap_or(Value::Null)).collect()).unwrap_or_default();
                json!({"context": ctx, "value": v})
            }
            "getBalance" => json!({"context": ctx, "value": pk(&p[0]).map(|k| self.w.get(self.vm, &k).lamports).unwrap_or(0)}),
            "getMinimumBalanceForRentExemption" => json!(self.vm.rent(p[0].as_u64().unwrap_or(0) as usize)),
            "getLatestBlockhash" => json!({"context": ctx, "value": {"blockhash": bs58::encode(self.latest).into_string(), "lastValidBlockHeight": 500}}),
            "isBlockhashValid" => {
                let ok = p[0].as_str().and_then(|s| bs58::decode(s).into_vec().ok()).is_some_and(|b| self.recent.iter().any(|r| r[..] == b[..]));
                json!({"context": ctx, "value": ok})
            }
            "getBlockHeight" | "getSlot" => json!(100),
            "getVersion" => json!({"solana-core": "3.0.0", "feature-set": 1}),
            "getFeeForMessage" => json!({"context": ctx, "value": FEE_PER_SIG}),
            "getSignatureStatuses" => {
                let v: Vec<Value> = p[0].as_array().map(|a| a.iter().map(|s| self.status.get(s.as_str().unwrap_or("")).cloned().unwrap_or(Value::Null)).collect()).unwrap_or_default();
                json!({"context": ctx, "value": v})
            }
            "simulateTransaction" => {
                let Some(tx) = tx_of(&p[0], &p[1]["encoding"]) else {
                    self.undecodable += 1;
                    return fail(-32602, "failed to deserialize transaction", Value::Null);
                };
                let mut t = tx.clone();
                if p[1]["replaceRecentBlockhash"].as_bool() == Some(true) {
                    t.blockhash = self.latest;
                }
                let r = self.checked(&t, p[1]["sigVerify"].as_bool() == Some(true));
                self.simulated.push((tx, r.is_ok()));
                match r {
                    Err(e) if e == json!("SignatureFailure") => return fail(-32003, "Transaction signature verification failure", Value::Null),
                    r => {
                        let e = r.err().unwrap_or(Value::Null);
                        let none = e.is_string();
                        json!({"context": ctx, "value": {"err": e, "logs": if none { json!([]) } else { json!(["Program log: simulated"]) }, "accounts": null, "unitsConsumed": if none { 0 } else { 4321 }, "returnData": null, "innerInstructions": null}})
                    }
                }
            }
            "sendTransaction" => {
                let Some(tx) = tx_of(&p[0], &p[1]["encoding"]) else {
                    self.undecodable += 1;
                    return fail(-32602, "failed to deserialize transaction", Value::Null);
                };
                let sig = bs58::encode(tx.sigs[0]).into_string();
                if self.status.contains_key(&sig) {
                    // re-broadcast of the same transaction
                    return json!({"jsonrpc": "2.0", "id": id, "result": sig});
                }
                let r = self.checked(&tx, true);
                let skip = p[1]["skipPreflight"].as_bool() == Some(true);
                let ok = r.is_ok();
                let err = match r {
                    Err(e) if e == json!("SignatureFailure") => {
                        self.sent.push(Sent { tx, ok });
                        return fail(-32003, "Transaction signature verification failure", Value::Null);
                    }
                    Err(e) if !skip => {
                        self.sent.push(Sent { tx, ok });
                        return fail(-32002, "Transaction simulation failed", json!({"accounts": null, "err": e, "logs": [], "unitsConsumed": 0, "returnData": null, "innerInstructions": null}));
                    }
                    Err(e) => e,
                    Ok(_) if self.fault.land => json!({"InstructionError": [0, {"Custom": 77}]}),
                    Ok(n) => {
                        *self.w = n;
                        Value::Null
                    }
                };
                let st = if err.is_null() { json!({"Ok": null}) } else { json!({"Err": err}) };
                self.status.insert(sig.clone(), json!({"slot": 100, "confirmations": null, "err": err, "status": st, "confirmationStatus": "finalized"}));
                self.sent.push(Sent { tx, ok: err.is_null() });
                json!(sig)
            }
            _ => return fail(-32601, "Method not found", Value::Null),
        };
        json!({"jsonrpc": "2.0", "id": id, "result": result})
    }
}

// ---- running the tool ----
pub struct Done {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

static N: AtomicU64 = AtomicU64::new(0);
/// A directory that goes away with the value.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = crate::engine::verif_dir().join("build/tmp").join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn file(&self, name: &str, text: &str) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, text).unwrap();
        p.to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn serve(mut s: TcpStream, tx: mpsc::Sender<(Value, mpsc::Sender<Value>)>) -> Option<()> {
    s.set_nodelay(true).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(90))).ok()?;
    let mut r = BufReader::new(s.try_clone().ok()?);
    loop {
        let mut len = 0usize;
        let mut first = true;
        loop {
            let mut line = String::new();
            if r.read_line(&mut line).ok()? == 0 {
                return None;
            }
            let l = line.trim();
            if l.is_empty() && !first {
                break;
            }
            first = false;
            if let Some((k, v)) = l.split_once(':') {
                if k.eq_ignore_ascii_case("content-length") {
                    len = v.trim().parse().ok()?;
                }
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body).ok()?;
        let v: Value = serde_json::from_slice(&body).ok()?;
        let (a, b) = mpsc::channel();
        tx.send((v, a)).ok()?;
        let o = b.recv().ok()?.to_string();
        s.write_all(format!("HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{o}", o.len()).as_bytes()).ok()?;
    }
}

/// Built by tools/build_cli.sh.
fn cli() -> PathBuf {
    crate::engine::verif_dir().join("build/cli/spl-token-wrap")
}
/// Nothing listens here.
pub const DEAD_URL: &str = "http://127.0.0.1:1";

/// Runs the tool with the given arguments; `{url}` in an argument stands for the node's URL.
pub fn run_cli(node: &mut Node, home: &Path, args: &[String]) -> Done {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    let url = format!("http://{addr}");
    let stop = Arc::new(AtomicBool::new(false));
    let (tx, rx) = mpsc::channel();
    let acceptor = {
        let stop = stop.clone();
        std::thread::spawn(move || {
            for c in l.incoming() {
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                if let Ok(c) = c {
                    let tx = tx.clone();
                    std::thread::spawn(move || serve(c, tx));
                }
            }
        })
    };
    // configuration files name the node's address too
    if let Ok(t) = std::fs::read_to_string(home.join("config.tmpl")) {
        std::fs::write(home.join("config.yml"), t.replace("{url}", &url)).unwrap();
    }
    let args: Vec<String> = args.iter().map(|a| a.replace("{url}", &url)).collect();
    let mut child = Command::new(cli())
        .args(&args)
        .env_clear()
        .env("HOME", home)
        .env("NO_COLOR", "1")
        .current_dir(home)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("{:?}: {e}", cli()));
    fn slurp(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<String> {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = r.read_to_end(&mut v);
            String::from_utf8_lossy(&v).to_string()
        })
    }
    let out = slurp(child.stdout.take().unwrap());
    let err = slurp(child.stderr.take().unwrap());
    let start = Instant::now();
    let status = loop {
        match rx.recv_timeout(Duration::from_millis(4)) {
            Ok((v, reply)) => {
                let v: Value = v;
                let r: mpsc::Sender<Value> = reply;
                let _ = r.send(node.handle(&v));
                continue;
            }
            Err(_) => {}
        }
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > Duration::from_secs(100) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    stop.store(true, Ordering::SeqCst);
    let _ = TcpStream::connect(addr);
    let _ = acceptor.join();
    let (out, err) = (out.join().unwrap(), err.join().unwrap());
    let Some(status) = status else {
        crate::engine::abort(format!("the tool did not end: {args:?}\n{out}\n{err}\n{:?}", node.requests));
    };
    Done { code: status.code(), out, err }
}
