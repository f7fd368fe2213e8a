//! Asks the JavaScript client: one node process per thread, one JSON line per question.
use {
    crate::{engine::*, vm::*},
    serde_json::{json, Value},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::{
        cell::RefCell,
        io::{BufRead, BufReader, Write},
        process::{Child, ChildStdin, Command, Stdio},
        sync::mpsc,
        time::Duration,
    },
};

struct Js {
    child: Child,
    to: ChildStdin,
    from: mpsc::Receiver<String>,
}
impl Js {
    fn new() -> Js {
        let driver = verif_dir().join("build/js/driver.cjs");
        assert!(driver.exists(), "{} is not built", driver.display());
        let mut child = Command::new("node")
            .arg(driver)
            .env_remove("NODE_ENV")
            .env_remove("NODE_OPTIONS")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node runs");
        let to = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let (tx, from) = mpsc::channel();
        std::thread::spawn(move || {
            for l in out.lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let mut js = Js { child, to, from };
        match js.line(&json!({"op": "hello"})) {
            Some(l) if l.contains("hello") => js,
            // it does not even load: for want of something in the stand-ins
            _ => abort("stand-in: the client does not load".into()),
        }
    }
    fn line(&mut self, q: &Value) -> Option<String> {
        writeln!(self.to, "{q}").and_then(|_| self.to.flush()).ok()?;
        self.from.recv_timeout(Duration::from_secs(60)).ok()
    }
}
impl Drop for Js {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static JS: RefCell<Option<Js>> = const { RefCell::new(None) };
}

/// The client's answer, or what it threw.
pub fn ask(q: &Value) -> Result<Value, String> {
    JS.with_borrow_mut(|slot| {
        for again in [true, false] {
            let js = slot.get_or_insert_with(Js::new);
            if let Some(l) = js.line(q) {
                let mut v: Value = serde_json::from_str(&l).expect("the driver answers JSON");
                if let Some(e) = v["error"].as_str() {
                    if e.starts_with("stand-in:") {
                        // the client uses more of a package than is modelled: no verdict
                        abort(e.to_string());
                    }
                    return Err(e.to_string());
                }
                return Ok(v["ok"].take());
            }
            *slot = None;
            if !again {
                break;
            }
        }
        Err("the client hangs or brings its process down".into())
    })
}

pub fn b58(k: &Pubkey) -> Value {
    json!(k.to_string())
}
pub fn big(n: impl ToString) -> Value {
    json!({ "big": n.to_string() })
}
pub fn signer(k: &Pubkey) -> Value {
    json!({ "signer": k.to_string() })
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn bytes(v: &Value) -> Option<Vec<u8>> {
    unhex(v.get("hex").unwrap_or(v).as_str()?)
}
pub fn pubkey(v: &Value) -> Option<Pubkey> {
    v.as_str()?.parse().ok()
}
/// An instruction as the client makes it, and the signers it attaches.
pub fn instruction(v: &Value) -> Option<(Instruction, Vec<Option<Pubkey>>)> {
    let mut signers = vec![];
    let mut accounts = vec![];
    for a in v["accounts"].as_array()? {
        let role = a["role"].as_u64()?;
        accounts.push(AccountMeta { pubkey: pubkey(&a["key"])?, is_signer: role & 2 != 0, is_writable: role & 1 != 0 });
        signers.push(pubkey(&a["signer"]));
        if role > 3 {
            return None;
        }
    }
    Some((Instruction { program_id: pubkey(&v["program"])?, data: bytes(&v["data"])?, accounts }, signers))
}
pub fn instructions(v: &Value) -> Option<Vec<(Instruction, Vec<Option<Pubkey>>)>> {
    v.as_array()?.iter().map(instruction).collect()
}
pub fn from_instruction(i: &Instruction) -> Value {
    json!({
        "program": i.program_id.to_string(),
        "data": hex(&i.data),
        "accounts": i.accounts.iter().map(|a| json!({"key": a.pubkey.to_string(), "role": a.is_signer as u8 * 2 + a.is_writable as u8})).collect::<Vec<_>>(),
    })
}
pub fn program_arg(custom: Option<Pubkey>) -> Value {
    custom.map_or(Value::Null, |k| b58(&k))
}
pub const DEFAULT_PROGRAM: Pubkey = TW;
