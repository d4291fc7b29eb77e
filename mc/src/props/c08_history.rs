//! C08: the command history store. Every sequence of operations of two sessions up to a depth on the
//! real store (a database file per sequence), against a list model; the same with the store locked
//! while a session records; and whole interactive shells on a terminal.
use crate::bb::*;
use crate::common::*;
use doge_shell::db::Db;
use doge_shell::history::{Entry, History, HistoryMetadata};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        id: "C08",
        level: "model_checking",
        rule: "all operation sequences up to the depth over: a session's commands (new, repeated, in the same second and later), outcomes, directory changes, another session's commands and outcomes, reload, restart through the two-phase load (first part of 1 or 2 entries) and through the plain load; after every operation the session's whole list is compared with a list model, and at the end the store's. Then all sequences of recording/reload while the store is locked (the writer is behind), and interactive shells that record before the history is loaded and leave while the store is locked. Non-trivial: a command is repeated, another session recorded something, or the store was locked.",
        assumptions: &[
            "the order of commands of the same second after a restart is unspecified",
            "the store is never locked for longer than the five seconds a writer waits",
            "fewer commands than the store's limit of 10000",
        ],
        shards: 16,
        hang_s: 120,
        run,
    }
}

type Out = (Option<i32>, Option<u64>, Option<String>, Option<String>, Option<String>);

#[derive(Clone, Debug, PartialEq)]
struct Row {
    cmd: String,
    when: i64,
    count: i64,
    ctx: Option<String>,
    out: Out,
}
fn row(e: &Entry) -> Row {
    Row { cmd: e.entry.clone(), when: e.when, count: e.count, ctx: e.context.clone(), out: (e.exit_code, e.duration_ms, e.cwd.clone(), e.session_id.clone(), e.hostname.clone()) }
}
const NONE: Out = (None, None, None, None, None);

fn record(v: &mut Vec<Row>, cmd: &str, when: i64, ctx: &str) {
    let mut count = 1;
    if let Some(p) = v.iter().position(|r| r.cmd == cmd) {
        count = v.remove(p).count + 1;
    }
    v.push(Row { cmd: cmd.into(), when, count, ctx: Some(ctx.into()), out: NONE });
}
fn outcome(v: &mut [Row], cmd: &str, m: &HistoryMetadata, ctx: &str) {
    if let Some(r) = v.iter_mut().find(|r| r.cmd == cmd) {
        r.ctx = Some(ctx.into());
        r.out = (m.exit_code, m.duration_ms, m.cwd.clone(), m.session_id.clone(), m.hostname.clone());
    }
}
fn meta(ok: bool, session: &str, cwd: &str) -> HistoryMetadata {
    HistoryMetadata {
        exit_code: Some(if ok { 0 } else { 3 }),
        duration_ms: Some(if ok { 1500 } else { 0 }),
        cwd: Some(cwd.into()),
        session_id: Some(session.into()),
        hostname: Some("h".into()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// the session runs command .0, .1 seconds later
    W(usize, i64),
    O(bool),
    Cd,
    W2(usize, i64),
    O2(bool),
    Reload,
    /// restart, loading .0 entries first and the others afterwards
    Restart(usize),
    Load,
}
use Op::*;
const OPS: &[Op] = &[W(0, 1), W(1, 1), W(2, 0), W(0, 0), O(true), O(false), Cd, W2(0, 1), W2(1, 0), O2(true), Reload, Restart(1), Restart(2), Load];
const CMDS: &[&str] = &["make", "make test", "あ 'x' \"y\"\nz"];

/// The rows with the same time, as a set: what is required of their order is nothing.
fn by_second(v: &[Row]) -> Vec<Vec<Row>> {
    let mut out: Vec<Vec<Row>> = vec![];
    for r in v {
        match out.last_mut() {
            Some(g) if g[0].when == r.when => g.push(r.clone()),
            _ => out.push(vec![r.clone()]),
        }
    }
    for g in &mut out {
        g.sort_by(|a, b| a.cmd.cmp(&b.cmd));
    }
    out
}
fn sorted(v: &[Row]) -> Vec<Row> {
    let mut v = v.to_vec();
    v.sort_by_key(|r| r.when);
    v
}
fn view(h: &History) -> Vec<Row> {
    h.iter().map(row).collect()
}
fn diff(what: &str, real: &[Row], want: &[Row]) -> String {
    format!("{what}: the history is {real:?}, should be {want:?}")
}

struct World {
    n: u64,
    data: PathBuf,
    work: PathBuf,
}
impl World {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("h{}", self.n)
    }
    fn file(&self, name: &str) -> PathBuf {
        self.data.join("dsh").join(format!("{name}.db"))
    }
    fn drop_db(&self, name: &str) {
        for s in ["", "-wal", "-shm"] {
            let _ = std::fs::remove_file(PathBuf::from(format!("{}{s}", self.file(name).display())));
        }
    }
}

fn start(name: &str, op: Op) -> Result<History, String> {
    let mut h = History::from_file(name).map_err(|e| e.to_string())?;
    match op {
        Restart(n) => {
            let min = h.load_recent(n).map_err(|e| e.to_string())?;
            if min > 0 {
                let old = h.load_older_than(min, 9000).map_err(|e| e.to_string())?;
                if !old.is_empty() {
                    h.prepend(old);
                }
            }
        }
        _ => {
            h.load().map_err(|e| e.to_string())?;
        }
    }
    Ok(h)
}

fn sequence(w: &mut World, ops: &[Op]) -> Result<bool, String> {
    let name = w.fresh();
    let r = sequence_in(w, &name, ops);
    w.drop_db(&name);
    r
}

fn sequence_in(w: &World, name: &str, ops: &[Op]) -> Result<bool, String> {
    let e = |x: anyhow::Error| x.to_string();
    let dirs = [w.work.join("p1"), w.work.join("p2")];
    let ctx = |i: usize| dirs[i].display().to_string();
    let mut cwd = 0;
    std::env::set_current_dir(&dirs[0]).unwrap();
    let mut h = start(name, Load)?;
    let mut other = start(name, Load)?;
    let mut store: Vec<Row> = vec![];
    let mut local: Vec<Row> = vec![];
    let mut now = 1000;
    let (mut last, mut last2) = (None, None);
    let mut nontrivial = false;
    for (i, op) in ops.iter().enumerate() {
        match *op {
            W(c, dt) => {
                now += dt;
                nontrivial |= store.iter().any(|r| r.cmd == CMDS[c]);
                h.write_batch(vec![(CMDS[c].into(), now)]).map_err(e)?;
                record(&mut store, CMDS[c], now, &ctx(cwd));
                record(&mut local, CMDS[c], now, &ctx(cwd));
                last = Some(c);
            }
            O(ok) => {
                let Some(c) = last else { continue };
                let m = meta(ok, "s1", &ctx(cwd));
                h.record_outcome(CMDS[c], m.clone()).map_err(e)?;
                outcome(&mut store, CMDS[c], &m, &ctx(cwd));
                outcome(&mut local, CMDS[c], &m, &ctx(cwd));
            }
            Cd => {
                cwd = 1 - cwd;
                std::env::set_current_dir(&dirs[cwd]).unwrap();
            }
            W2(c, dt) => {
                now += dt;
                nontrivial = true;
                other.write_batch(vec![(CMDS[c].into(), now)]).map_err(e)?;
                record(&mut store, CMDS[c], now, &ctx(cwd));
                last2 = Some(c);
            }
            O2(ok) => {
                let Some(c) = last2 else { continue };
                let m = meta(ok, "s2", "/elsewhere");
                other.record_outcome(CMDS[c], m.clone()).map_err(e)?;
                outcome(&mut store, CMDS[c], &m, &ctx(cwd));
            }
            Reload => {
                h.reload().map_err(e)?;
                let real = view(&h);
                if by_second(&real) != by_second(&sorted(&store)) {
                    return Err(diff(&format!("after reload (step {i})"), &real, &sorted(&store)));
                }
                // what this session saw in an order stays in that order within a second
                let pos = |v: &[Row], c: &str| v.iter().position(|r| r.cmd == c);
                for a in &local {
                    for b in &local {
                        let (ra, rb) = (pos(&real, &a.cmd).unwrap(), pos(&real, &b.cmd).unwrap());
                        if a.when == b.when && real[ra].when == a.when && real[rb].when == b.when && pos(&local, &a.cmd) < pos(&local, &b.cmd) && ra > rb {
                            return Err(diff(&format!("after reload (step {i}), the order within a second changed"), &real, &local));
                        }
                    }
                }
                local = real;
            }
            Restart(_) | Load => {
                h = start(name, *op)?;
                let real = view(&h);
                if by_second(&real) != by_second(&sorted(&store)) {
                    return Err(diff(&format!("after a restart (step {i}, {op:?})"), &real, &sorted(&store)));
                }
                local = real;
                last = None;
            }
        }
        let real = view(&h);
        if real != local {
            return Err(diff(&format!("after step {i} ({op:?})"), &real, &local));
        }
        if !h.at_end() {
            return Err(format!("after step {i} ({op:?}) the history is not at its newest end"));
        }
        // The newest entry with a prefix, which is what a suggestion offers.
        for p in ["make", "make ", "あ", "none"] {
            let want = local.iter().rev().find(|r| r.cmd.starts_with(p)).map(|r| r.cmd.as_str());
            if h.search_first(p) != want {
                return Err(format!("after step {i} ({op:?}) the newest command starting with {p:?} is given as {:?}, of {local:?}", h.search_first(p)));
            }
        }
    }
    let end = start(name, Load)?;
    let real = view(&end);
    if by_second(&real) != by_second(&sorted(&store)) {
        return Err(diff("in a new session at the end", &real, &sorted(&store)));
    }
    Ok(nontrivial)
}

// ---- the store is locked while a session records ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum SOp {
    W(usize, i64),
    O(bool),
    /// another session commits a command of its own
    Foreign,
    Reload,
}
const SOPS: &[SOp] = &[SOp::W(0, 1), SOp::W(1, 1), SOp::W(0, 0), SOp::O(false), SOp::Foreign, SOp::Reload];

fn locked(w: &mut World, before: &[usize], ops: &[SOp]) -> Result<(), String> {
    let name = w.fresh();
    let r = locked_in(w, &name, before, ops);
    w.drop_db(&name);
    r
}

fn locked_in(w: &World, name: &str, before: &[usize], ops: &[SOp]) -> Result<(), String> {
    let e = |x: anyhow::Error| x.to_string();
    let dir = w.work.join("p1");
    std::env::set_current_dir(&dir).unwrap();
    let ctx = dir.display().to_string();
    let mut store: Vec<Row> = vec![];
    let mut h = start(name, Load)?;
    let mut now = 1000;
    for &c in before {
        now += 1;
        h.write_batch(vec![(CMDS[c].into(), now)]).map_err(e)?;
        record(&mut store, CMDS[c], now, &ctx);
    }
    let mut local = store.clone();
    h.start_background_writer();
    let lock = Db::new(w.file(name)).map_err(e)?;
    let sql = |s: &str| lock.get_connection().execute_batch(s).map_err(|x| format!("{s}: {x}"));
    sql("BEGIN IMMEDIATE")?;
    let mut last = None;
    let mut foreign = false;
    for (i, op) in ops.iter().enumerate() {
        match *op {
            SOp::W(c, dt) => {
                now += dt;
                h.write_batch(vec![(CMDS[c].into(), now)]).map_err(e)?;
                record(&mut store, CMDS[c], now, &ctx);
                record(&mut local, CMDS[c], now, &ctx);
                last = Some(c);
            }
            SOp::O(ok) => {
                let Some(c) = last else { continue };
                let m = meta(ok, "s1", &ctx);
                h.record_outcome(CMDS[c], m.clone()).map_err(e)?;
                outcome(&mut store, CMDS[c], &m, &ctx);
                outcome(&mut local, CMDS[c], &m, &ctx);
            }
            SOp::Foreign => {
                now += 1;
                sql(&format!(
                    "INSERT INTO command_history (command, timestamp, context, count) VALUES ('other', {now}, '{ctx}', 1)
                     ON CONFLICT(command) DO UPDATE SET count = count + 1, timestamp = excluded.timestamp; COMMIT; BEGIN IMMEDIATE"
                ))?;
                record(&mut store, "other", now, &ctx);
                foreign = true;
            }
            SOp::Reload => {
                // The lock goes, so reload and the writer's outstanding work race: however far the
                // writer is, everything either side knows must be there.
                sql("COMMIT")?;
                h.reload().map_err(e)?;
                let real = view(&h);
                sql("BEGIN IMMEDIATE")?;
                if by_second(&real) != by_second(&sorted(&store)) {
                    return Err(diff(&format!("after reload with writes outstanding (step {i})"), &real, &sorted(&store)));
                }
                local = real;
            }
        }
        let real = view(&h);
        if real != local {
            return Err(diff(&format!("after step {i} ({op:?}), store locked"), &real, &local));
        }
    }
    sql("COMMIT")?;
    // The writer catches up.
    let t = Instant::now();
    let want = by_second(&sorted(&store));
    loop {
        let real = view(&start(name, Load)?);
        if by_second(&real) == want {
            break;
        }
        if t.elapsed() > Duration::from_secs(20) {
            return Err(diff(&format!("stored after the lock is gone{}", if foreign { ", with another session's commands" } else { "" }), &real, &sorted(&store)));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    Ok(())
}

// ---- whole shells ----

fn shell_rows(home: &Path) -> Result<Vec<(String, i64, Option<i32>)>, String> {
    let db = Db::new(home.join("data/dsh/dsh_cmd_history.db")).map_err(|e| e.to_string())?;
    let c = db.get_connection();
    let mut s = c.prepare("SELECT command, count, exit_code FROM command_history ORDER BY timestamp, id").map_err(|e| e.to_string())?;
    let r = s.query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?))).map_err(|e| e.to_string())?;
    Ok(r.flatten().collect())
}

fn shell(c: &Ctx, kind: &str) -> Result<(), String> {
    let mut sh = Sh::new(&c.scratch);
    let data = sh.home.join("data");
    let _ = std::fs::remove_dir_all(&data);
    std::fs::create_dir_all(data.join("dsh")).unwrap();
    sh.env.push(("XDG_DATA_HOME".into(), data.display().to_string()));
    let db = data.join("dsh/dsh_cmd_history.db");
    let hold = |s: &str| -> Result<Db, String> {
        let d = Db::new(db.clone()).map_err(|e| e.to_string())?;
        d.get_connection().execute_batch(s).map_err(|e| e.to_string())?;
        Ok(d)
    };
    let miss = |t: &Tty| format!("no prompt; the terminal shows {:?}", t.text().chars().rev().take(300).collect::<String>().chars().rev().collect::<String>());
    match kind {
        // the history cannot be opened yet when the first commands run
        "early" | "early-twice" | "early-exit" => {
            drop(hold("INSERT INTO command_history (command, timestamp, count) VALUES ('rec old', 5, 1)")?);
            let l = hold("PRAGMA locking_mode=EXCLUSIVE; BEGIN EXCLUSIVE; INSERT INTO snippets (name, command, created_at) VALUES ('x','x',1)")?;
            let mut t = sh.tty();
            if !t.ready() {
                return Err(miss(&t));
            }
            let mut want = vec![("rec old".to_string(), 1, None), ("ex 3 one".to_string(), 1, Some(3))];
            t.line("ex 3 one").ok_or_else(|| miss(&t))?;
            if kind == "early-twice" {
                t.line("ex 3 one").ok_or_else(|| miss(&t))?;
                want[1].1 = 2;
            }
            if kind == "early-exit" {
                t.send("exit\r");
                std::thread::sleep(Duration::from_millis(50));
            }
            drop(l);
            if kind != "early-exit" {
                let t0 = Instant::now();
                while !shell_rows(&sh.home)?.iter().any(|r| r.0 == want[1].0) {
                    if t0.elapsed() > Duration::from_secs(15) {
                        return Err(format!("run before the history was loaded, never stored: {:?}; stored: {:?}", want[1], shell_rows(&sh.home)?));
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
                std::thread::sleep(Duration::from_millis(200));
                // what was there before and what was run is recalled
                for (typed, run, k) in [("rec o", "rec", "old"), ("ex 3", "ex", "one")] {
                    let n = t.cmds().len();
                    t.send(&format!("{typed}\x1b[A\x1b[A\x1b[A"));
                    t.line("").ok_or_else(|| miss(&t))?;
                    let got = t.cmds();
                    if got.len() != n + 1 || got[n].0 != run || got[n].1.last().map(|s| s.as_str()) != Some(k) {
                        return Err(format!("{typed:?} and Up does not recall the command from before the history was loaded; run: {:?}", &got[n..]));
                    }
                }
                want.iter_mut().for_each(|r| r.1 += 1);
                want[0].2 = Some(0);
                t.send("exit\r");
            }
            t.ended().ok_or("the shell does not end")?;
            let rows = shell_rows(&sh.home)?;
            for r in &want {
                if !rows.contains(r) {
                    return Err(format!("run before the history was loaded, not stored: {r:?}; stored: {rows:?}"));
                }
            }
        }
        // the last command and its outcome are stored even if the store is busy when the shell leaves
        "busy-exit" | "busy-last" => {
            drop(hold("SELECT 1")?);
            let mut t = sh.tty();
            if !t.ready() {
                return Err(miss(&t));
            }
            // until the history is loaded and its writer works
            let t0 = Instant::now();
            t.line("rec first").ok_or_else(|| miss(&t))?;
            while !shell_rows(&sh.home)?.iter().any(|r| r.0 == "rec first" && r.2 == Some(0)) {
                if t0.elapsed() > Duration::from_secs(15) {
                    return Err(format!("a command was not stored: {:?}", shell_rows(&sh.home)?));
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            let l = hold("BEGIN IMMEDIATE")?;
            let n = if kind == "busy-last" { 1 } else { 3 };
            for k in 0..n {
                t.line(&format!("ex {} last{k}", k + 1)).ok_or_else(|| miss(&t))?;
            }
            t.send("exit\r");
            std::thread::sleep(Duration::from_millis(150));
            l.get_connection().execute_batch("COMMIT").map_err(|e| e.to_string())?;
            t.ended().ok_or("the shell does not end")?;
            let rows = shell_rows(&sh.home)?;
            for k in 0..n {
                let r = (format!("ex {} last{k}", k + 1), 1, Some(k + 1));
                if !rows.contains(&r) {
                    return Err(format!("run before leaving, not stored: {r:?}; stored: {rows:?}"));
                }
            }
        }
        // more commands than the first part of the load, several of the second where it ends
        "long" => {
            let mut q = String::from("BEGIN;");
            for i in 0..1010 {
                let ts = if i < 20 { 100 } else { 101 + i };
                q += &format!("INSERT INTO command_history (command, timestamp, count) VALUES ('rec {i:04}z', {ts}, 1);");
            }
            drop(hold(&(q + "COMMIT;"))?);
            let mut bad = vec![];
            for patience in [300, 6000] {
                let mut t = sh.tty();
                if !t.ready() {
                    return Err(miss(&t));
                }
                std::thread::sleep(Duration::from_millis(patience));
                bad.clear();
                for i in (0..1010).filter(|i| *i < 22 || *i % 250 == 9) {
                    t.send(&format!("rec {i:04}\x1b[A"));
                    t.line("").ok_or_else(|| miss(&t))?;
                    let got = t.cmds().last().cloned().unwrap_or_default().1;
                    if got != [format!("{i:04}z")] {
                        bad.push(i);
                    }
                }
                t.exit();
                if bad.is_empty() {
                    return Ok(());
                }
                let d = hold("DELETE FROM command_history WHERE command NOT LIKE '%z'")?;
                drop(d);
            }
            return Err(format!("of a history of 1010 commands these cannot be recalled: {bad:?}"));
        }
        _ => unreachable!(),
    }
    Ok(())
}

const SHELLS: &[&str] = &["long", "early", "early-twice", "early-exit", "busy-exit", "busy-last"];

fn run(c: &mut Ctx) {
    let data = PathBuf::from(std::env::var("XDG_DATA_HOME").unwrap());
    std::fs::create_dir_all(data.join("dsh")).unwrap();
    let work = c.scratch.join("work");
    for d in ["p1", "p2"] {
        std::fs::create_dir_all(work.join(d)).unwrap();
    }
    let path = std::env::var_os("PATH");
    // no git: the context of a command is its directory
    unsafe { std::env::set_var("PATH", "/nonexistent") };
    let mut w = World { n: 0, data, work };
    let only = c.only.clone();

    let check = |c: &mut Ctx, w: &mut World, ops: &[Op]| {
        c.begin(&format!("{ops:?}"));
        c.traces += 1;
        c.transitions += ops.len() as u64;
        c.state(format!("{ops:?}"));
        match catch(|| sequence(w, ops)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            Ok(n) => c.eval(format!("{ops:?}"), n),
            Err(m) => {
                let idx: Vec<usize> = ops.iter().map(|o| OPS.iter().position(|x| x == o).unwrap()).collect();
                c.violation(format!("seq:{ops:?}"), format!("{ops:?}: {m}"), json!({"ops": idx}));
            }
        }
    };
    let check2 = |c: &mut Ctx, w: &mut World, before: &[usize], ops: &[SOp]| {
        c.begin(&format!("locked {before:?} {ops:?}"));
        c.traces += 1;
        c.transitions += ops.len() as u64;
        c.state(format!("locked {before:?} {ops:?}"));
        match catch(|| locked(w, before, ops)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            Ok(()) => c.eval(format!("locked {before:?} {ops:?}"), true),
            Err(m) => {
                let idx: Vec<usize> = ops.iter().map(|o| SOPS.iter().position(|x| x == o).unwrap()).collect();
                c.violation(format!("locked:{before:?}{ops:?}"), format!("store locked, before {before:?}, {ops:?}: {m}"), json!({"before": before, "sops": idx}));
            }
        }
    };
    let check3 = |c: &mut Ctx, kind: &str| {
        c.begin(&format!("shell {kind}"));
        c.traces += 1;
        match shell(c, kind) {
            Ok(()) => c.eval(format!("shell {kind}"), true),
            Err(m) => c.violation(format!("shell:{kind}"), format!("shell, {kind}: {m}"), json!({"shell": kind})),
        }
    };

    if let Some(o) = only {
        let idx = |k: &str| -> Vec<usize> { o[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default() };
        if let Some(k) = o["shell"].as_str() {
            check3(c, k);
        } else if o["sops"].is_array() {
            let ops: Vec<SOp> = idx("sops").iter().map(|i| SOPS[*i]).collect();
            check2(c, &mut w, &idx("before"), &ops);
        } else {
            let ops: Vec<Op> = idx("ops").iter().map(|i| OPS[*i]).collect();
            check(c, &mut w, &ops);
        }
        return;
    }

    for k in SHELLS {
        if c.mine() {
            check3(c, k);
        }
    }
    let depth = if c.thorough() { 5 } else { 4 };
    // Shorter sequences are prefixes of these: every step is compared.
    sequences(OPS.len(), depth, |s| {
        // a sequence starts with something recorded
        if !matches!(OPS[s[0]], W(..) | W2(..)) || !c.mine() {
            return;
        }
        let ops: Vec<Op> = s.iter().map(|i| OPS[*i]).collect();
        check(c, &mut w, &ops);
    });
    let depth = if c.thorough() { 5 } else { 4 };
    for before in [&[][..], &[1, 0][..]] {
        sequences(SOPS.len(), depth, |s| {
            let ops: Vec<SOp> = s.iter().map(|i| SOPS[*i]).collect();
            // at least one record before a reload or a foreign command matters
            if !matches!(ops[0], SOp::W(..)) || !ops[1..].iter().any(|o| !matches!(o, SOp::W(..) | SOp::O(_))) || !c.mine() {
                return;
            }
            check2(c, &mut w, before, &ops);
        });
    }
    c.sample(json!({"ops": format!("{:?}", &OPS[..4]), "commands": CMDS}));
    if let Some(p) = path {
        unsafe { std::env::set_var("PATH", p) };
    }
}
