//! Runner: deterministic cases, three-valued verdicts, watchdog, evidence, replay.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % (hi - lo + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn b(&mut self) -> bool {
        self.next() & 1 == 1
    }
    /// true with probability pct/100
    pub fn p(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.n(i + 1));
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- case API
#[derive(Debug, Clone)]
pub struct Fail {
    /// stable identification of *what* failed (used for known findings)
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
    })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return $crate::core::fail($sig, format!($($a)*)); } };
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub tier_thorough: bool,
    pub counts: BTreeMap<String, u64>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub key: u64,
    pub nontrivial: bool,
    pub scratch_root: PathBuf,
    scratch_used: bool,
}
thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; static IN_SUT: RefCell<bool> = const { RefCell::new(false) }; }
impl Case {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_insert(0) += n;
        }
    }
    /// record an input document (goes in replay file, contributes to the distinctness key)
    pub fn input(&mut self, name: &str, bytes: &[u8]) {
        self.key ^= fnv(bytes).rotate_left(7).wrapping_add(fnv(name.as_bytes()));
        self.inputs.push((name.to_string(), bytes.to_vec()));
    }
    /// run code under test; a panic in it is a failure
    pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
        sut(what, f)
    }
    pub fn scratch(&mut self) -> PathBuf {
        let d = self.scratch_root.join(format!("c{}", self.idx));
        if !self.scratch_used {
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("scratch dir");
            self.scratch_used = true;
        }
        d
    }
}
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    IN_SUT.with(|s| *s.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| *s.borrow_mut() = false);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let sigp = strip_digits(&p);
            fail(format!("panic:{what}:{sigp}"), format!("{what} panicked: {p}"))
        }
    }
}
fn strip_digits(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).take(120).collect()
}

// ---------------------------------------------------------------- diffs
/// Structural comparison; floats to an absolute/relative tolerance, everything else exactly.
pub fn diff(exp: &Value, act: &Value, tol: f64) -> Option<String> {
    fn go(e: &Value, a: &Value, tol: f64, path: &mut String) -> Option<String> {
        let here = |p: &str| if p.is_empty() { "<root>".to_string() } else { p.to_string() };
        match (e, a) {
            (Value::Number(x), Value::Number(y)) => {
                if (x.is_i64() || x.is_u64()) && (y.is_i64() || y.is_u64()) {
                    if x.to_string() == y.to_string() {
                        return None;
                    }
                } else {
                    let (fx, fy) = (x.as_f64().unwrap(), y.as_f64().unwrap());
                    if (fx - fy).abs() <= tol * fx.abs().max(1.0) {
                        return None;
                    }
                }
                Some(format!("{}: expected {x}, got {y}", here(path)))
            }
            (Value::Array(x), Value::Array(y)) => {
                for (i, (xe, ya)) in x.iter().zip(y.iter()).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    let d = go(xe, ya, tol, path);
                    path.truncate(l);
                    if d.is_some() {
                        return d;
                    }
                }
                if x.len() != y.len() {
                    return Some(format!(
                        "{}: expected {} elements, got {} (first extra: {})",
                        here(path),
                        x.len(),
                        y.len(),
                        if x.len() > y.len() { x[y.len()].to_string() } else { y[x.len()].to_string() }
                    ));
                }
                None
            }
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let l = path.len();
                    path.push('.');
                    path.push_str(k);
                    let d = match y.get(k) {
                        Some(w) => go(v, w, tol, path),
                        None => Some(format!("{}: expected {v}, missing", here(path))),
                    };
                    path.truncate(l);
                    if d.is_some() {
                        return d;
                    }
                }
                for (k, w) in y {
                    if !x.contains_key(k) {
                        return Some(format!("{}.{k}: unexpected {w}", here(path)));
                    }
                }
                None
            }
            _ if e == a => None,
            _ => Some(format!("{}: expected {e}, got {a}", here(path))),
        }
    }
    go(exp, act, tol, &mut String::new())
}
pub const TOL: f64 = 1e-9;
pub fn same(what: &str, exp: &Value, act: &Value) -> Res {
    same_tol(what, exp, act, TOL)
}
pub fn same_tol(what: &str, exp: &Value, act: &Value, tol: f64) -> Res {
    match diff(exp, act, tol) {
        None => Ok(()),
        Some(d) => fail(format!("diff:{what}"), format!("{what}: {d}")),
    }
}

// ---------------------------------------------------------------- properties and runner
pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// counters that must be non-zero, else the run is inconclusive
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Case) -> Res,
}

struct Shared {
    counts: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    evals: u64,
    nontrivial: u64,
    samples: Vec<Value>,
    violations: Vec<Value>,
    harness_errors: Vec<String>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    fnv(format!("{seed}/{id}/{idx}").as_bytes())
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/src/").next().unwrap_or(f);
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        let text = format!("{msg} @ {loc}");
        let in_sut = IN_SUT.with(|s| *s.borrow());
        if !in_sut {
            eprintln!("harness panic: {text}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

fn bytes_json(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) => json!({ "text": s }),
        Err(_) => json!({ "hex": b.iter().map(|x| format!("{x:02x}")).collect::<String>() }),
    }
}

fn run_case(prop: &Prop, seed: u64, idx: u64, thorough: bool, scratch: &Path) -> (Case, Result<Res, String>) {
    let mut c = Case {
        rng: Rng::new(case_seed(seed, prop.id, idx)),
        idx,
        tier_thorough: thorough,
        counts: BTreeMap::new(),
        inputs: vec![],
        key: 0,
        nontrivial: false,
        scratch_root: scratch.to_path_buf(),
        scratch_used: false,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (prop.case)(&mut c)));
    if c.scratch_used {
        let _ = std::fs::remove_dir_all(scratch.join(format!("c{idx}")));
    }
    let r = match r {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    };
    (c, r)
}

const MAX_STACK: usize = 16 << 20;

/// Worker: runs all cases on several threads, writes the result file.
pub fn worker(prop: &Prop, out: &Path, seed: u64, thorough: bool, only: Option<u64>, scratch: &Path) -> i32 {
    install_hook();
    let total = env_u64("VP_CASES", if thorough { prop.thorough } else { prop.quick });
    let cap = Duration::from_secs(env_u64("VP_CAP_S", if thorough { 780 } else { 240 }));
    let nthreads = if only.is_some() { 1 } else { env_u64("VP_THREADS", 8) as usize };
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let shared = Mutex::new(Shared {
        counts: BTreeMap::new(),
        keys: HashSet::new(),
        evals: 0,
        nontrivial: 0,
        samples: vec![],
        violations: vec![],
        harness_errors: vec![],
    });
    std::fs::create_dir_all(scratch).expect("scratch");
    std::thread::scope(|s| {
        for t in 0..nthreads {
            let (next, stop, shared) = (&next, &stop, &shared);
            let progress = scratch.join(format!("progress{t}"));
            std::thread::Builder::new()
                .stack_size(MAX_STACK)
                .spawn_scoped(s, move || {
                    use std::os::unix::fs::FileExt;
                    let pf = std::fs::File::create(&progress).expect("progress file");
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let idx = match only {
                            Some(i) => {
                                if next.fetch_add(1, Ordering::Relaxed) > 0 {
                                    break;
                                }
                                i
                            }
                            None => {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= total || start.elapsed() > cap {
                                    break;
                                }
                                i
                            }
                        };
                        let _ = pf.write_all_at(format!("{idx:020}").as_bytes(), 0);
                        let (c, r) = run_case(prop, seed, idx, thorough, scratch);
                        let mut sh = shared.lock().unwrap();
                        sh.evals += 1;
                        for (k, v) in &c.counts {
                            *sh.counts.entry(k.clone()).or_insert(0) += v;
                        }
                        if c.nontrivial {
                            sh.nontrivial += 1;
                            sh.keys.insert(c.key);
                        }
                        if (sh.samples.len() < 3 && c.nontrivial) && !c.inputs.is_empty() {
                            let ins: serde_json::Map<String, Value> = c
                                .inputs
                                .iter()
                                .take(4)
                                .map(|(n, b)| {
                                    (
                                        n.clone(),
                                        Value::String(String::from_utf8_lossy(&b[..b.len().min(600)]).into_owned()),
                                    )
                                })
                                .collect();
                            sh.samples.push(json!({"case": idx, "inputs": ins}));
                        }
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(f)) => {
                                if sh.violations.len() < 400
                                    && sh.violations.iter().filter(|v| v["sig"] == f.sig.as_str()).count() < 3
                                {
                                    let ins: Vec<Value> =
                                        c.inputs.iter().map(|(n, b)| json!({"name": n, "data": bytes_json(b)})).collect();
                                    sh.violations.push(json!({
                                        "property": prop.id, "seed": seed, "case": idx, "tier": if thorough {"thorough"} else {"quick"},
                                        "sig": f.sig, "msg": f.msg, "inputs": ins,
                                    }));
                                }
                            }
                            Err(p) => {
                                sh.harness_errors.push(format!("case {idx}: {p}"));
                                if sh.harness_errors.len() > 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let _ = pf.write_all_at(b"done                ", 0);
                })
                .expect("thread");
        }
    });
    let sh = shared.into_inner().unwrap();
    let res = json!({
        "evaluations": sh.evals, "nontrivial": sh.nontrivial, "distinct": sh.keys.len(), "counts": sh.counts,
        "samples": sh.samples, "violations": sh.violations, "harness_errors": sh.harness_errors,
        "requested": total, "wall_s": start.elapsed().as_secs_f64(),
    });
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).expect("write result");
    0
}

fn cpu_ticks(pid: u32) -> u64 {
    // total CPU of the process
    std::fs::read_to_string(format!("/proc/{pid}/stat"))
        .ok()
        .and_then(|s| {
            let s = s.rsplit(')').next()?.to_string();
            let f: Vec<&str> = s.split_whitespace().collect();
            Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
        })
        .unwrap_or(0)
}

enum ChildEnd {
    Exit(i32),
    Signal(i32),
    Stuck(Vec<u64>),
}

fn spawn_worker(prop: &Prop, out: &Path, seed: u64, thorough: bool, only: Option<u64>, scratch: &Path, stuck_s: u64) -> ChildEnd {
    use std::os::unix::process::ExitStatusExt;
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg("worker").arg(prop.id).arg(out).arg(seed.to_string()).arg(if thorough { "thorough" } else { "quick" }).arg(scratch);
    if let Some(i) = only {
        cmd.arg(i.to_string());
    }
    let mut child = cmd.spawn().expect("spawn worker");
    let pid = child.id();
    let mut seen: BTreeMap<String, (String, Instant, u64)> = BTreeMap::new();
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return match st.code() {
                Some(c) => ChildEnd::Exit(c),
                None => ChildEnd::Signal(st.signal().unwrap_or(0)),
            };
        }
        std::thread::sleep(Duration::from_millis(50));
        let cpu = cpu_ticks(pid);
        let mut stuck = vec![];
        if let Ok(rd) = std::fs::read_dir(scratch) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if !n.starts_with("progress") {
                    continue;
                }
                let cur = std::fs::read_to_string(e.path()).unwrap_or_default();
                let ent = seen.entry(n).or_insert_with(|| (cur.clone(), Instant::now(), cpu));
                if ent.0 != cur {
                    *ent = (cur, Instant::now(), cpu);
                } else if !cur.starts_with("done") && ent.1.elapsed() > Duration::from_secs(stuck_s) {
                    if let Ok(i) = cur.trim().parse::<u64>() {
                        stuck.push(i);
                    }
                }
            }
        }
        if !stuck.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            return ChildEnd::Stuck(stuck);
        }
    }
}

fn progress_cases(scratch: &Path) -> Vec<u64> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(scratch) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with("progress") {
                if let Ok(s) = std::fs::read_to_string(e.path()) {
                    if let Ok(i) = s.trim().parse::<u64>() {
                        v.push(i);
                    }
                }
            }
        }
    }
    v
}

/// Parent: runs the worker under a watchdog, decides, writes evidence.  Returns the exit code.
pub fn check(prop: &Prop, verif: &Path, replay: Option<&Path>) -> i32 {
    let t0 = Instant::now();
    let mut seed = env_u64("VERIF_SEED", 1);
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut only = None;
    if let Some(r) = replay {
        let v: Value = serde_json::from_slice(&std::fs::read(r).expect("read replay")).expect("replay json");
        seed = v["seed"].as_u64().unwrap();
        thorough = v["tier"] == "thorough";
        only = v["case"].as_u64();
    }
    let scratch = std::env::temp_dir().join(format!("vp-mon-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let out = scratch.join("result.json");
    let stuck_s = env_u64("VP_STUCK_S", 60);
    let mut crash: Vec<Value> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let end = spawn_worker(prop, &out, seed, thorough, only, &scratch, stuck_s);
    let suspects = match &end {
        ChildEnd::Exit(0) => vec![],
        ChildEnd::Exit(c) => {
            inconclusive.push(format!("worker exit code {c}"));
            vec![]
        }
        ChildEnd::Signal(9) => {
            inconclusive.push("worker was killed (memory?)".into());
            vec![]
        }
        ChildEnd::Signal(_) => progress_cases(&scratch),
        ChildEnd::Stuck(v) => v.clone(),
    };
    for idx in suspects {
        let s2 = scratch.join("iso");
        let _ = std::fs::remove_dir_all(&s2);
        std::fs::create_dir_all(&s2).unwrap();
        let o2 = s2.join("result.json");
        let e2 = spawn_worker(prop, &o2, seed, thorough, Some(idx), &s2, stuck_s * 2);
        let why = match e2 {
            ChildEnd::Signal(n) if n != 9 => Some(("abort", format!("process died with signal {n} (stack overflow or abort)"))),
            ChildEnd::Stuck(_) => Some(("hang", format!("no result after {} s on one small case", stuck_s * 2))),
            ChildEnd::Exit(0) => {
                // it may also simply report a violation on its own
                if let Ok(b) = std::fs::read(&o2) {
                    let v: Value = serde_json::from_slice(&b).unwrap();
                    if let Some(vs) = v["violations"].as_array() {
                        crash.extend(vs.iter().cloned());
                    }
                }
                None
            }
            _ => None,
        };
        if let Some((sig, msg)) = why {
            crash.push(json!({"property": prop.id, "seed": seed, "case": idx, "tier": if thorough {"thorough"} else {"quick"}, "sig": sig, "msg": msg, "inputs": []}));
        }
    }
    if crash.is_empty() && !matches!(end, ChildEnd::Exit(0)) && inconclusive.is_empty() {
        inconclusive.push("worker ended abnormally, not reproducible in isolation".into());
    }
    let res: Value = std::fs::read(&out)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_else(|| json!({"evaluations": 0, "nontrivial": 0, "distinct": 0, "counts": {}, "samples": [], "violations": [], "harness_errors": []}));
    let _ = std::fs::remove_dir_all(&scratch);

    // the same cases once more under the thread sanitizer
    let mut tsan = Value::Null;
    if let (Ok(bin), true, true) = (std::env::var("VP_TSAN_BIN"), replay.is_none(), res["violations"].as_array().is_some_and(Vec::is_empty)) {
        let n = if thorough { 6000 } else { 600 };
        let dir = std::env::temp_dir().join(format!("vp-tsan-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let out = dir.join("result.json");
        let st = std::process::Command::new(&bin)
            .arg("worker").arg(prop.id).arg(&out).arg(seed.to_string()).arg(if thorough { "thorough" } else { "quick" }).arg(&dir)
            .env("VP_THREADS", "1").env("VP_CASES", n.to_string()).env("VP_CAP_S", if thorough { "200" } else { "60" })
            .env("TSAN_OPTIONS", format!("halt_on_error=0 exitcode=66 report_signal_unsafe=0 log_path={}", dir.join("report").display()))
            .status();
        let mut reports = vec![];
        if let Ok(rd) = std::fs::read_dir(&dir) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with("report") {
                    reports.push(String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).into_owned());
                }
            }
        }
        let r2: Value = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        if let Some(t) = reports.iter().find(|t| t.contains("WARNING: ThreadSanitizer")) {
            crash.push(json!({"property": prop.id, "seed": seed, "case": 0, "tier": "quick", "sig": "data-race", "msg": t.chars().take(4000).collect::<String>(), "inputs": []}));
        }
        crash.extend(r2["violations"].as_array().cloned().unwrap_or_default());
        tsan = match st {
            Ok(s) => json!({"exit": s.code(), "executions": r2["evaluations"], "observed": r2["counts"], "race_reports": reports.iter().map(|t| t.matches("WARNING: ThreadSanitizer").count()).sum::<usize>()}),
            Err(e) => json!({"not_run": e.to_string()}),
        };
        let _ = std::fs::remove_dir_all(&dir);
    }

    let known: Vec<Value> = std::fs::read(verif.join("known_findings.json"))
        .ok()
        .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default();
    let mut viols: Vec<Value> = crash;
    viols.extend(res["violations"].as_array().cloned().unwrap_or_default());
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    viols.retain(|v| {
        let k = known.iter().find(|k| k["property"] == prop.id && k["sig"] == v["sig"]);
        if let Some(k) = k {
            *known_hit.entry(k["what"].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
            false
        } else {
            true
        }
    });
    for k in known.iter().filter(|k| k["property"] == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k["what"].as_str().unwrap_or(""));
    }
    for h in res["harness_errors"].as_array().cloned().unwrap_or_default() {
        inconclusive.push(format!("harness error: {}", h.as_str().unwrap_or("")));
    }
    if replay.is_none() && viols.is_empty() {
        for n in prop.need {
            if res["counts"][n].as_u64().unwrap_or(0) == 0 {
                inconclusive.push(format!("nothing observed for '{n}'"));
            }
        }
        if res["distinct"].as_u64().unwrap_or(0) < 2 {
            inconclusive.push("fewer than two distinct non-trivial cases".into());
        }
    }
    // replay files
    let rdir = verif.join("replays");
    let mut first = None;
    if replay.is_none() {
        let _ = std::fs::create_dir_all(&rdir);
    }
    for (i, v) in viols.iter().enumerate().take(8) {
        println!("  [{}] case {}: {}", v["sig"].as_str().unwrap_or(""), v["case"], v["msg"].as_str().unwrap_or("").chars().take(500).collect::<String>());
        if replay.is_none() {
            let p = rdir.join(format!("{}-{}-{}.json", prop.id, seed, i));
            let _ = std::fs::write(&p, serde_json::to_vec_pretty(v).unwrap());
            first.get_or_insert(p);
        }
    }
    if replay.is_none() {
        let ev = json!({
            "property": prop.id,
            "tier": if thorough {"thorough"} else {"quick"},
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": res["evaluations"],
                "distinct_nontrivial": res["distinct"],
                "rule": prop.rule,
                "samples": if res["samples"].as_array().is_some_and(|a| !a.is_empty()) { res["samples"].clone() } else { json!(["(no sample recorded)"]) },
                "observed": res["counts"],
                "known_findings_seen": known_hit,
                "inconclusive": inconclusive,
                "thread_sanitizer": tsan,
            },
            "assumptions": prop.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": viols.len(),
        });
        std::fs::create_dir_all(verif.join("evidence")).ok();
        std::fs::write(verif.join("evidence").join(format!("{}.json", prop.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    }
    if !viols.is_empty() {
        let rp = first.or_else(|| replay.map(Path::to_path_buf)).unwrap();
        println!("VIOLATION property={} replay={}", prop.id, rp.display());
        return 1;
    }
    if !inconclusive.is_empty() {
        for i in &inconclusive {
            println!("INCONCLUSIVE {}: {i}", prop.id);
        }
        return 2;
    }
    println!(
        "OK {} held on {} executions ({} distinct non-trivial) in {:.1}s",
        prop.id,
        res["evaluations"],
        res["distinct"],
        t0.elapsed().as_secs_f64()
    );
    0
}
