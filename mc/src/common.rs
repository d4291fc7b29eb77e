//! Shared machinery: exploration context, sharding over worker processes, crash/hang detection,
//! known findings, replay artefacts and evidence.
use serde_json::{Map, Value, json};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub replay: Value,
}

/// One exploration (a whole run, or one shard of it).
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub scratch: PathBuf,
    next_index: usize,
    pub evals: u64,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub max_violations: usize,
    shared: Option<Shared>,
    pub only: Option<Value>,
    /// runs that did not finish; after a few, the rest of this shard is left out
    pub hangs: usize,
    stop_after: usize,
}

pub fn h<T: Hash>(t: T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

struct Shared {
    ptr: *mut u8,
}
const SHARED_LEN: usize = 16384;

impl Shared {
    fn open(path: &Path) -> Option<Shared> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len(SHARED_LEN as u64).ok()?;
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHARED_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if ptr == libc::MAP_FAILED { None } else { Some(Shared { ptr: ptr as *mut u8 }) }
    }
    fn set(&self, case: &str) {
        let b = case.as_bytes();
        let n = b.len().min(SHARED_LEN - 16);
        unsafe {
            let ctr = self.ptr as *mut u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.ptr.add(16), n);
            *(self.ptr.add(8) as *mut u32) = n as u32;
            std::ptr::write_volatile(ctr, std::ptr::read_volatile(ctr) + 1);
        }
    }
    fn counter(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.ptr as *const u64) }
    }
    fn case(&self) -> String {
        unsafe {
            let n = *(self.ptr.add(8) as *const u32) as usize;
            let s = std::slice::from_raw_parts(self.ptr.add(16), n.min(SHARED_LEN - 16));
            String::from_utf8_lossy(s).into_owned()
        }
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Round-robin partition of an enumeration over the shards; call once per top-level case.
    pub fn mine(&mut self) -> bool {
        let i = self.next_index;
        self.next_index += 1;
        // The verdict is in: do not spend the rest of the time on more of the same.
        if self.hangs >= 3 || self.violations.len() >= self.stop_after {
            self.count("left_out_after_violations");
            return false;
        }
        i % self.nshards == self.shard
    }
    /// Announce the case about to run, so that an abort or hang can be attributed to it.
    pub fn begin(&self, case: &str) {
        if let Some(s) = &self.shared {
            s.set(case);
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 4 {
            self.samples.push(v);
        }
    }
    pub fn state<T: Hash>(&mut self, t: T) -> bool {
        self.states.insert(h(t))
    }
    /// Record one evaluated case. `nontrivial` cases are counted as distinct by `key`.
    pub fn eval<T: Hash>(&mut self, key: T, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(h(key));
        }
    }
    pub fn violation(&mut self, key: impl Into<String>, msg: impl Into<String>, replay: Value) {
        let key = key.into();
        self.count("violating_cases");
        if self.violations.iter().any(|v| v.key == key) {
            return;
        }
        if self.violations.len() < self.max_violations {
            self.violations.push(Violation { key, msg: msg.into(), replay });
        }
    }
    /// Run `f`, turning a panic of the code under test into `Err(message)`.
    pub fn guard<R>(&self, f: impl FnOnce() -> R) -> Result<R, String> {
        catch(f)
    }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }),
    }
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of worker processes
    pub shards: usize,
    /// seconds without progress after which a worker counts as hung
    pub hang_s: u64,
    pub run: fn(&mut Ctx),
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    // lines: "known: property=<id> key=<key> :: <what fails>"
    let txt = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in txt.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            if let Some((id, rest)) = rest.split_once(" key=") {
                if id == prop {
                    if let Some((k, what)) = rest.split_once(" :: ") {
                        out.push((k.trim().to_string(), what.trim().to_string()));
                    }
                }
            }
        }
    }
    out
}

pub fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn new_ctx(spec: &Spec, shard: usize, n: usize, scratch: PathBuf) -> Ctx {
    Ctx {
        prop: spec.id.to_string(),
        tier: env_tier(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        shard,
        nshards: n,
        scratch,
        next_index: 0,
        evals: 0,
        states: HashSet::new(),
        transitions: 0,
        traces: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        violations: vec![],
        max_violations: 200,
        shared: None,
        only: None,
        hangs: 0,
        stop_after: known_findings(spec.id).len() + 40,
    }
}

fn ctx_to_json(c: &Ctx) -> Value {
    json!({
        "evals": c.evals, "transitions": c.transitions, "traces": c.traces,
        "states": c.states.iter().collect::<Vec<_>>(),
        "distinct": c.distinct.iter().collect::<Vec<_>>(),
        "samples": c.samples, "counters": c.counters,
        "violations": c.violations.iter().map(|v| json!({"key": v.key, "msg": v.msg, "replay": v.replay})).collect::<Vec<_>>(),
    })
}

fn merge(c: &mut Ctx, v: &Value) {
    c.evals += v["evals"].as_u64().unwrap_or(0);
    c.transitions += v["transitions"].as_u64().unwrap_or(0);
    c.traces += v["traces"].as_u64().unwrap_or(0);
    for x in v["states"].as_array().into_iter().flatten() {
        if let Some(x) = x.as_u64() {
            c.states.insert(x);
        }
    }
    for x in v["distinct"].as_array().into_iter().flatten() {
        if let Some(x) = x.as_u64() {
            c.distinct.insert(x);
        }
    }
    for x in v["samples"].as_array().into_iter().flatten() {
        c.sample(x.clone());
    }
    for (k, x) in v["counters"].as_object().into_iter().flatten() {
        c.add(k, x.as_u64().unwrap_or(0));
    }
    for x in v["violations"].as_array().into_iter().flatten() {
        let key = x["key"].as_str().unwrap_or("").to_string();
        if !c.violations.iter().any(|y| y.key == key) {
            c.violations.push(Violation {
                key,
                msg: x["msg"].as_str().unwrap_or("").to_string(),
                replay: x["replay"].clone(),
            });
        }
    }
}

/// Environment isolation for a worker: its own HOME and XDG directories inside its scratch folder.
fn isolate(scratch: &Path) {
    let home = scratch.join("home");
    for d in ["home", "home/.config", "home/.local/share", "home/.local/state", "home/.cache", "work", "tmp"] {
        std::fs::create_dir_all(scratch.join(d)).unwrap();
    }
    unsafe {
        std::env::set_var("HOME", &home);
        std::env::set_var("XDG_CONFIG_HOME", home.join(".config"));
        std::env::set_var("XDG_DATA_HOME", home.join(".local/share"));
        std::env::set_var("XDG_STATE_HOME", home.join(".local/state"));
        std::env::set_var("XDG_CACHE_HOME", home.join(".cache"));
        std::env::set_var("TMPDIR", scratch.join("tmp"));
        for k in ["AI_CHAT_API_KEY", "OPENAI_API_KEY", "AI_CHAT_EXECUTE_ALLOWLIST", "DSH_EXECUTE_TOOL_CONFIG", "BASH_ENV", "ENV"] {
            std::env::remove_var(k);
        }
    }
    std::env::set_current_dir(scratch.join("work")).unwrap();
}

pub fn worker_main(spec: &Spec, shard: usize, n: usize, scratch: &Path, only: Option<Value>) {
    isolate(scratch);
    if std::env::var("MC_PANIC_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut c = new_ctx(spec, shard, n, scratch.to_path_buf());
    c.only = only;
    c.shared = Shared::open(&scratch.join("progress"));
    (spec.run)(&mut c);
    let tmp = scratch.join("result.tmp");
    std::fs::write(&tmp, serde_json::to_vec(&ctx_to_json(&c)).unwrap()).unwrap();
    std::fs::rename(&tmp, scratch.join("result.json")).unwrap();
    // Leave without running destructors of global runtimes/threads.
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

fn scratch_base(id: &str) -> PathBuf {
    let p = PathBuf::from(format!("/tmp/mc-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

pub fn run_check(spec: &Spec, replay: Option<Value>) -> i32 {
    let started = Instant::now();
    let n = if replay.is_some() { 1 } else { spec.shards.max(1) };
    let base = scratch_base(spec.id);
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for i in 0..n {
        let sc = base.join(format!("s{i}"));
        std::fs::create_dir_all(&sc).unwrap();
        let sh = Shared::open(&sc.join("progress")).expect("progress map");
        let log = std::fs::File::create(sc.join("log")).unwrap();
        let mut cmd = std::process::Command::new(&exe);
        cmd.arg("--worker").arg(spec.id).arg(i.to_string()).arg(n.to_string()).arg(&sc);
        if let Some(r) = &replay {
            cmd.arg(serde_json::to_string(r).unwrap());
        }
        cmd.stdin(std::process::Stdio::null());
        cmd.stdout(log.try_clone().unwrap()).stderr(log);
        use std::os::unix::process::CommandExt;
        unsafe {
            cmd.pre_exec(|| {
                libc::setsid();
                Ok(())
            });
        }
        let child = cmd.spawn().expect("spawn worker");
        kids.push((child, sh, sc, 0u64, Instant::now(), false));
    }
    let mut c = new_ctx(spec, 0, 1, base.clone());
    let mut broken: Vec<String> = vec![];
    let mut left = n;
    while left > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for (child, sh, sc, last, since, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            let ctr = sh.counter();
            if ctr != *last {
                *last = ctr;
                *since = Instant::now();
            }
            match child.try_wait() {
                Ok(Some(st)) => {
                    *done = true;
                    left -= 1;
                    match std::fs::read(sc.join("result.json")) {
                        Ok(b) => merge(&mut c, &serde_json::from_slice(&b).unwrap()),
                        Err(_) => {
                            let case = sh.case();
                            let log = std::fs::read_to_string(sc.join("log")).unwrap_or_default();
                            let tail: String = log.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                            if ctr == 0 {
                                broken.push(format!("worker died before its first case ({st}): {tail}"));
                            } else {
                                c.violation(
                                    format!("abort:{case}"),
                                    format!("process died ({st}) while running the case; log tail: {tail}"),
                                    json!({"abort_case": case}),
                                );
                            }
                        }
                    }
                }
                Ok(None) => {
                    if since.elapsed() > Duration::from_secs(spec.hang_s) {
                        let case = sh.case();
                        unsafe {
                            libc::kill(-(child.id() as i32), libc::SIGKILL);
                        }
                        let _ = child.wait();
                        *done = true;
                        left -= 1;
                        if ctr == 0 {
                            broken.push("worker made no progress at all".into());
                        } else {
                            c.violation(
                                format!("hang:{case}"),
                                format!("no progress for {} s while running the case", spec.hang_s),
                                json!({"hang_case": case}),
                            );
                        }
                    }
                }
                Err(e) => {
                    broken.push(format!("wait: {e}"));
                    *done = true;
                    left -= 1;
                }
            }
        }
    }
    if std::env::var("MC_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&base);
    }
    finish(spec, c, started, broken, replay.is_some())
}

fn finish(spec: &Spec, c: Ctx, started: Instant, broken: Vec<String>, is_replay: bool) -> i32 {
    let known = known_findings(spec.id);
    let mut new_v = vec![];
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    for v in &c.violations {
        if let Some((k, what)) = known.iter().find(|(k, _)| *k == v.key) {
            known_hit.insert(k.clone(), what.clone());
        } else {
            new_v.push(v.clone());
        }
    }
    let dir = PathBuf::from(VERIF).join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut replays = vec![];
    new_v.sort_by_key(|v| (v.replay.to_string().len(), v.key.clone()));
    for (i, v) in new_v.iter().take(20).enumerate() {
        let p = dir.join(format!("{}.violation.{}.json", spec.id, i));
        std::fs::write(
            &p,
            serde_json::to_string_pretty(&json!({"property": spec.id, "key": v.key, "message": v.msg, "replay": v.replay})).unwrap(),
        )
        .unwrap();
        replays.push((p, v.clone()));
    }
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(c.evals));
    cov.insert("distinct_nontrivial".into(), json!(c.distinct.len()));
    cov.insert("rule".into(), json!(spec.rule));
    if spec.level == "model_checking" {
        cov.insert("states".into(), json!(c.states.len()));
        cov.insert("transitions".into(), json!(c.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(c.traces));
    }
    cov.insert("exhaustive".into(), json!(true));
    cov.insert("samples".into(), json!(c.samples));
    cov.insert("counters".into(), json!(c.counters));
    let ev = json!({
        "property": spec.id,
        "tier": if c.tier == Tier::Thorough {"thorough"} else {"quick"},
        "seed": c.seed,
        "level": spec.level,
        "coverage": cov,
        "assumptions": spec.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": new_v.len(),
        "known_findings_seen": known_hit.len(),
    });
    if !is_replay {
        std::fs::write(dir.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    for (_, what) in &known_hit {
        println!("KNOWN-FINDING: property={} {}", spec.id, what);
    }
    println!(
        "{}: evaluations={} distinct={} states={} transitions={} traces={} wall={:.1}s counters={}",
        spec.id,
        c.evals,
        c.distinct.len(),
        c.states.len(),
        c.transitions,
        c.traces,
        started.elapsed().as_secs_f64(),
        json!(c.counters)
    );
    if !new_v.is_empty() {
        for (p, v) in &replays {
            println!("VIOLATION property={} replay={}", spec.id, p.display());
            println!("  key={}\n  {}", v.key, v.msg);
        }
        if new_v.len() > replays.len() {
            println!("  ... {} further violations", new_v.len() - replays.len());
        }
        return 1;
    }
    if !broken.is_empty() {
        eprintln!("check error: {}", broken.join("; "));
        return 2;
    }
    if c.evals == 0 {
        eprintln!("check error: nothing was evaluated");
        return 2;
    }
    0
}

/// All sequences over `0..k` of length exactly `len`, in lexicographic order.
pub fn sequences(k: usize, len: usize, mut f: impl FnMut(&[usize])) {
    if k == 0 && len > 0 {
        return;
    }
    let mut v = vec![0usize; len];
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}
