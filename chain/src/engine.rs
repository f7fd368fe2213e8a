//! Runs a property: deterministic generation in parallel batches, shrinking,
//! replay files, known findings, evidence.
use {
    crate::vm::{Deployment, Vm},
    proptest::{
        strategy::BoxedStrategy,
        test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
    },
    serde::{de::DeserializeOwned, Serialize},
    sha2::{Digest, Sha256},
    std::{
        cell::RefCell,
        collections::{BTreeMap, HashSet},
        fmt::Debug,
        panic::{catch_unwind, AssertUnwindSafe},
        path::PathBuf,
        sync::{
            atomic::{AtomicU64, Ordering},
            Mutex,
        },
        time::{Duration, Instant},
    },
};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A property found broken. `sig` identifies the failure for known findings.
#[derive(Debug, Clone)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
}
pub fn viol<T>(sig: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), msg: msg.into() })
}

/// A case that cannot be set up (its preconditions do not come about).
pub struct Abort(pub String);
pub fn abort(msg: String) -> ! {
    std::panic::panic_any(Abort(msg))
}
/// The program refuses what the worlds of the property start from (a genuine pair, a plain
/// deposit), or what it made is of no use for them. A property nearly all of whose worlds are
/// impossible does not hold.
const IMPOSSIBLE: &str = "what the case starts from does not come about: ";
pub fn impossible(msg: String) -> ! {
    abort(format!("{IMPOSSIBLE}{msg}"))
}

/// What one case did; feeds the evidence.
#[derive(Default)]
pub struct Stats {
    pub nontrivial: bool,
    pub classes: BTreeMap<String, u64>,
    pub note: Option<String>,
}
impl Stats {
    pub fn hit(&mut self, c: impl Into<String>) {
        *self.classes.entry(c.into()).or_default() += 1;
    }
}

pub trait Prop: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn deployments(&self) -> Vec<Deployment> {
        vec![Deployment::Main]
    }
    fn threads(&self) -> u64 {
        8
    }
    fn cases(&self, tier: Tier) -> u64;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(&self, vms: &mut [Vm], case: &Self::Case, st: &mut Stats) -> Result<(), Violation>;
}

const BATCH: u64 = 20;

struct Totals {
    evaluations: u64,
    hashes: HashSet<u64>,
    nontrivial: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, (u64, String)>,
    aborted: u64,
    abort_msg: Option<String>,
    impossible: u64,
    first_impossible: Option<(String, serde_json::Value)>,
    harness_error: Option<String>,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("TW_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn known_sigs(id: &str) -> Vec<(String, String)> {
    // lines: `known: property=<id> sig=<sig> <what fails>`
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let s = it.next()?.strip_prefix("sig=")?;
            (p == id).then(|| (s.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

fn h64(b: &[u8]) -> u64 {
    u64::from_le_bytes(Sha256::digest(b)[..8].try_into().unwrap())
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn run_prop<P: Prop>(p: &P, seed: u64, tier: Tier) -> i32 {
    let start = Instant::now();
    let deadline = Duration::from_secs(match tier {
        Tier::Quick => 420,
        Tier::Thorough => 3 * 3600,
    });
    let cases = std::env::var("TW_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(p.cases(tier));
    let nbatch = cases.div_ceil(BATCH);
    let threads: u64 = std::env::var("TW_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(p.threads());
    let known = known_sigs(p.id());
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX); // lowest failing batch
    let totals = Mutex::new(Totals {
        evaluations: 0,
        hashes: HashSet::new(),
        nontrivial: 0,
        classes: BTreeMap::new(),
        samples: vec![],
        known: BTreeMap::new(),
        aborted: 0,
        abort_msg: None,
        impossible: 0,
        first_impossible: None,
        harness_error: None,
    });
    let failure: Mutex<Option<(u64, P::Case, String)>> = Mutex::new(None);
    let timed_out = AtomicU64::new(0);

    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut vms: Vec<Vm> = p.deployments().into_iter().map(Vm::new).collect();
                let strategy = p.strategy(tier);
                loop {
                    let b = next.fetch_add(1, Ordering::SeqCst);
                    if b >= nbatch || b > stop_at.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed() > deadline {
                        timed_out.store(1, Ordering::SeqCst);
                        break;
                    }
                    let mut h = Sha256::new();
                    h.update(p.id().as_bytes());
                    h.update(seed.to_le_bytes());
                    h.update(b.to_le_bytes());
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &h.finalize());
                    let mut runner = TestRunner::new_with_rng(
                        Config {
                            cases: BATCH as u32,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 60_000,
                            max_global_rejects: 100_000,
                            ..Config::default()
                        },
                        rng,
                    );
                    let vmcell = RefCell::new(&mut vms);
                    let failing = RefCell::new(false);
                    let res = runner.run(&strategy, |case| {
                        if *failing.borrow() && stop_at.load(Ordering::SeqCst) < b {
                            return Ok(()); // an earlier batch fails: no need to shrink this one
                        }
                        let mut st = Stats::default();
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut v = vmcell.borrow_mut();
                            for vm in v.iter_mut() {
                                vm.reset();
                            }
                            p.run(&mut v, &case, &mut st)
                        }));
                        let r = match r {
                            Ok(r) => r,
                            Err(e) if e.is::<Abort>() => {
                                let mut t = totals.lock().unwrap();
                                t.aborted += 1;
                                let m = &e.downcast_ref::<Abort>().unwrap().0;
                                if m.starts_with(IMPOSSIBLE) {
                                    t.impossible += 1;
                                    t.first_impossible.get_or_insert_with(|| (m.clone(), serde_json::to_value(&case).unwrap()));
                                }
                                t.abort_msg.get_or_insert_with(|| format!("{m}; case: {}", serde_json::to_string(&case).unwrap_or_default()));
                                Ok(())
                            }
                            Err(e) => {
                                let msg = format!("{}; case: {}", panic_text(e), serde_json::to_string(&case).unwrap_or_default());
                                totals.lock().unwrap().harness_error.get_or_insert(msg);
                                Ok(())
                            }
                        };
                        if *failing.borrow() {
                            // shrinking
                            return match r {
                                Err(v) if !known.iter().any(|(s, _)| *s == v.sig) => {
                                    Err(TestCaseError::fail(v.msg))
                                }
                                _ => Ok(()),
                            };
                        }
                        let js = serde_json::to_string(&case).unwrap();
                        let mut t = totals.lock().unwrap();
                        t.evaluations += 1;
                        for (k, n) in &st.classes {
                            *t.classes.entry(k.clone()).or_default() += n;
                        }
                        if st.nontrivial && t.hashes.insert(h64(js.as_bytes())) {
                            t.nontrivial += 1;
                            if t.samples.len() < 3 && js.len() < 6000 {
                                let mut v: serde_json::Value = serde_json::from_str(&js).unwrap();
                                if let Some(n) = &st.note {
                                    v = serde_json::json!({"case": v, "observed": n});
                                }
                                t.samples.push(v);
                            }
                        }
                        match r {
                            Ok(()) => Ok(()),
                            Err(v) => {
                                if let Some((_, what)) = known.iter().find(|(s, _)| *s == v.sig) {
                                    let e = t.known.entry(v.sig.clone()).or_insert((0, what.clone()));
                                    e.0 += 1;
                                    Ok(())
                                } else {
                                    *failing.borrow_mut() = true;
                                    stop_at.fetch_min(b, Ordering::SeqCst);
                                    Err(TestCaseError::fail(format!("[{}] {}", v.sig, v.msg)))
                                }
                            }
                        }
                    });
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(_, case)) => {
                            // final message from the minimal case
                            let mut st = Stats::default();
                            for vm in vms.iter_mut() {
                                vm.reset();
                            }
                            let msg = match catch_unwind(AssertUnwindSafe(|| p.run(&mut vms, &case, &mut st))) {
                                Ok(Err(v)) => format!("[{}] {}", v.sig, v.msg),
                                Ok(Ok(())) => "minimal case passes when re-run: unstable".into(),
                                Err(e) => panic_text(e),
                            };
                            stop_at.fetch_min(b, Ordering::SeqCst);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map(|x| b < x.0).unwrap_or(true) {
                                *f = Some((b, case, msg));
                            }
                        }
                        Err(TestError::Abort(r)) => {
                            totals.lock().unwrap().harness_error.get_or_insert(format!("generator aborted: {r}"));
                        }
                    }
                }
            });
        }
    });

    let t = totals.into_inner().unwrap();
    let failure = failure.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    for (sig, (n, what)) in &t.known {
        println!("KNOWN-FINDING: property={} {} [{}; seen {} times]", p.id(), what, sig, n);
    }
    let found = match (failure, t.first_impossible.clone()) {
        (Some((_, case, msg)), _) => Some((serde_json::to_value(case).unwrap(), msg)),
        (None, Some((msg, case))) if t.impossible * 2 > t.evaluations && t.harness_error.is_none() => Some((case, format!("[impossible] {msg}"))),
        _ => None,
    };
    if let Some((case, msg)) = &found {
        violations = 1;
        let js = serde_json::json!({"property": p.id(), "message": msg, "case": case});
        let dir = verif_dir().join("replays");
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}-{:016x}.json", p.id(), h64(js.to_string().as_bytes())));
        std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap()).unwrap();
        println!("{msg}");
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        code = 1;
    } else if let Some(e) = &t.harness_error {
        println!("HARNESS ERROR: {e}");
        code = 2;
    } else if t.aborted > 0 {
        println!("note: {} cases could not be set up, first: {}", t.aborted, t.abort_msg.as_deref().unwrap_or(""));
        let gap = t.abort_msg.as_deref().is_some_and(|m| m.starts_with("stand-in:"));
        if (t.aborted * 2 > t.evaluations && !gap) || std::env::var("TW_STRICT").is_ok() {
            code = 2;
        }
    }
    let ev = serde_json::json!({
        "property": p.id(),
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.nontrivial,
            "rule": p.rule(),
            "samples": t.samples,
            "classes": t.classes,
            "known_findings_seen": t.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "planned": cases,
            "could_not_be_set_up": t.aborted,
            "stopped_early_by_clock": timed_out.load(Ordering::SeqCst) == 1,
            "exhaustive": false,
        },
        "assumptions": p.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evp = verif_dir().join("evidence");
    std::fs::create_dir_all(&evp).ok();
    std::fs::write(evp.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s{}",
        p.id(), t.evaluations, t.nontrivial, start.elapsed().as_secs_f64(),
        if code == 0 { " — held" } else { "" }
    );
    if std::env::var("TW_SHOW").is_ok() {
        for (k, n) in &t.classes {
            println!("   {n:>8}  {k}");
        }
    }
    code
}

pub fn replay_prop<P: Prop>(p: &P, case: serde_json::Value) -> i32 {
    let case: P::Case = serde_json::from_value(case).expect("case does not fit this property");
    let mut vms: Vec<Vm> = p.deployments().into_iter().map(Vm::new).collect();
    let mut st = Stats::default();
    for vm in vms.iter_mut() {
        vm.reset();
    }
    let r = match catch_unwind(AssertUnwindSafe(|| p.run(&mut vms, &case, &mut st))) {
        Ok(r) => r,
        Err(e) => match e.downcast_ref::<Abort>() {
            Some(a) if a.0.starts_with(IMPOSSIBLE) => viol("impossible", a.0.clone()),
            Some(a) => panic!("{}", a.0),
            None => std::panic::resume_unwind(e),
        },
    };
    for (k, n) in &st.classes {
        println!("   {n:>6}  {k}");
    }
    match r {
        Ok(()) => {
            println!("{}: held", p.id());
            0
        }
        Err(v) => {
            println!("{}: [{}] {}", p.id(), v.sig, v.msg);
            1
        }
    }
}

/// The command line: `<property> [quick|thorough]` or `replay <file>`.
pub fn cli(dispatch: impl Fn(&str, Option<serde_json::Value>, u64, Tier) -> i32) -> i32 {
    std::env::set_var("RUST_LOG", "off");
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !i.payload().is::<Abort>() {
            default(i)
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).unwrap();
            dispatch(v["property"].as_str().unwrap(), Some(v["case"].clone()), seed, Tier::Quick)
        }
        Some(id) => {
            let t = a.get(2).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            dispatch(id, None, seed, if t == "thorough" { Tier::Thorough } else { Tier::Quick })
        }
        None => {
            eprintln!("usage: <property> [quick|thorough] | replay <file>");
            2
        }
    }
}
