//! C11: the directory history behind z. Every sequence of visits, saves, reloads and restarts of two
//! sessions on the real store against a model of scores, times and counts; and whole shells.
use crate::bb::*;
use crate::common::*;
use doge_shell::db::Db;
use doge_shell::history::FrecencyHistory;
use dsh_frecency::{current_time_secs, FrecencyStore, FrecencyStoreSerializer, ItemStats, ItemStatsSerializer, SortMethod};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;

pub fn spec() -> Spec {
    Spec {
        id: "C11",
        level: "model_checking",
        rule: "all operation sequences up to the depth, from each starting population (none; some old; a session that has been running for 40 or 100 half-lives), over visits of three directories by two sessions, visits not yet saved, reload, restart, crash, removal of a directory and z -c; after every operation every session's entries (score, time, count), its three orders, prefix searches and fuzzy searches with and without a project context are compared with the model. Then all pairs of short shell sessions of directory changes, followed by a session that lists and jumps. Non-trivial: at least two directories known.",
        assumptions: &["a score is right if within 2 %, a time if within a second (single precision, over weeks)", "visits of two sessions that end up in one entry: the later visit's session decides the entry"],
        shards: 16,
        hang_s: 120,
        run,
    }
}

const HL: f64 = 12.0 * 3600.0;

#[derive(Clone, Debug)]
struct P {
    score: f64,
    last: f64,
    count: i32,
    ctx: String,
}
impl P {
    fn at(&self, now: f64) -> f64 {
        self.score * (-(now - self.last) / HL).exp2()
    }
}
type M = BTreeMap<String, P>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// session .0 visits directory .1, and saves
    V(usize, usize),
    /// visits without saving yet
    Lazy(usize, usize),
    Reload(usize),
    Restart(usize),
    /// the session ends without saving
    Crash,
    /// directory 1 is removed, then z -c
    Prune,
}
use Op::*;
const TWO: &[Op] = &[V(0, 0), V(0, 1), V(0, 2), V(1, 0), V(1, 1), Lazy(0, 0), Reload(0), Reload(1), Restart(0), Restart(1)];
const ONE: &[Op] = &[V(0, 0), V(0, 1), V(0, 2), Lazy(0, 1), Restart(0), Crash, Prune, Reload(0)];

struct World {
    n: u64,
    data: PathBuf,
    dirs: Vec<String>,
}

struct S {
    h: FrecencyHistory,
    m: M,
    changed: bool,
}

fn open(name: &str, writer: bool) -> Result<FrecencyHistory, String> {
    let mut h = FrecencyHistory::from_file(name).map_err(|e| e.to_string())?;
    if writer {
        h.start_background_writer();
    }
    Ok(h)
}

/// (directory, half-lives ago, score then, count)
const OLD: &[(usize, f64, f64, i32)] = &[(0, 3.0, 8.4, 9), (1, 0.1, 2.0, 2)];

fn population(pop: usize, w: &World, name: &str) -> Result<(S, M), String> {
    let writer = pop >= 10;
    let pop = pop % 10;
    let now = current_time_secs();
    let mut m = M::new();
    if pop > 0 {
        for &(d, ago, score, count) in OLD {
            m.insert(w.dirs[d].clone(), P { score, last: now - ago * HL, count, ctx: w.dirs[d].clone() });
        }
        // what a session that started long ago would have
        let start = now - [0.0, 4.0, 40.0, 100.0][pop] * HL;
        let items: Vec<_> = m
            .iter()
            .map(|(path, p)| json!({"item": path, "frecency": p.score * ((p.last - start) / HL).exp2(), "last_accessed": p.last - start, "num_accesses": p.count, "context": p.ctx}))
            .collect();
        let ser: FrecencyStoreSerializer = serde_json::from_value(json!({"reference_time": start, "half_life": HL, "items": items})).unwrap();
        let mut h = open(name, writer)?;
        h.store = Some(Arc::new(FrecencyStore::from(&ser)));
        h.force_changed();
        h.save().map_err(|e| e.to_string())?;
        if pop > 1 {
            // the session is still running
            return Ok((S { h, m: m.clone(), changed: false }, m));
        }
    }
    Ok((S { h: open(name, writer)?, m: m.clone(), changed: false }, m))
}

fn save(s: &mut S, store: &mut M) {
    s.h.save_background();
    s.h.flush();
    if s.changed {
        for (path, p) in &s.m {
            if store.get(path).is_none_or(|q| p.last >= q.last) {
                store.insert(path.clone(), p.clone());
            }
        }
        s.changed = false;
    }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 0.02 * a.abs().max(b.abs()) + 1e-4
}

fn subsequence(text: &str, pat: &str) -> bool {
    let mut it = text.chars();
    pat.chars().all(|c| it.any(|t| t.eq_ignore_ascii_case(&c)))
}

/// Is the list in an order that `key` (bigger first) allows, up to `same`?
fn order<'a>(what: &str, got: &'a [ItemStats], m: &'a M, key: impl Fn(&'a str, &'a P) -> f64, same: impl Fn(f64, f64) -> bool) -> Result<(), String> {
    for (i, a) in got.iter().enumerate() {
        for b in &got[i + 1..] {
            let (ka, kb) = (key(&a.item, &m[&a.item]), key(&b.item, &m[&b.item]));
            if ka < kb && !same(ka, kb) {
                return Err(format!("{what} lists {} ({ka}) before {} ({kb})", a.item, b.item));
            }
        }
    }
    Ok(())
}

fn view(s: &S, w: &World, coarse: bool) -> Result<(), String> {
    let now = current_time_secs();
    let (h, m) = (&s.h, &s.m);
    let close = |a: f64, b: f64| if coarse { (a - b).abs() < 1.0 } else { a == b };
    for method in [SortMethod::Recent, SortMethod::Frequent, SortMethod::Frecent] {
        let got = h.sorted(&method);
        let mut names: Vec<&str> = got.iter().map(|i| i.item.as_str()).collect();
        names.sort();
        if names != m.keys().map(|s| s.as_str()).collect::<Vec<_>>() {
            return Err(format!("the directories are {names:?}, should be {:?}", m.keys()));
        }
        match method {
            SortMethod::Recent => order("most recent first", &got, m, |_, p| p.last, close)?,
            SortMethod::Frequent => order("most often first", &got, m, |_, p| p.count as f64, |a, b| a == b)?,
            SortMethod::Frecent => order("frecent first", &got, m, |_, p| p.at(now), near)?,
        }
        for i in &got {
            let (ser, p) = (ItemStatsSerializer::from(i), &m[&i.item]);
            let last = h.store.as_ref().unwrap().reference_time + ser.last_accessed as f64;
            if !near(i.get_frecency() as f64, p.at(now)) || ser.num_accesses != p.count || (last - p.last).abs() > 1.0 || i.context.as_deref() != Some(&p.ctx) {
                return Err(format!(
                    "{}: score {} count {} last visit {:.2} s ago, project {:?}; should be score {} count {} {:.2} s ago, project {:?}",
                    i.item, i.get_frecency(), ser.num_accesses, now - last, i.context, p.at(now), p.count, now - p.last, p.ctx
                ));
            }
        }
    }
    let contexts = [None, Some(w.dirs[0].as_str()), Some(w.dirs[1].as_str()), Some("/elsewhere")];
    for ctx in contexts {
        let eff = |_: &str, p: &P| if ctx == Some(p.ctx.as_str()) { 2.0 * p.at(now) } else { p.at(now) };
        let root = Path::new(&w.dirs[0]).parent().unwrap().display().to_string();
        for prefix in [root.as_str(), &format!("{root}/x"), &w.dirs[2], "/none", "", "\u{10ffff}"] {
            let best = m.iter().filter(|(k, _)| k.starts_with(prefix)).map(|(k, p)| eff(k, p)).fold(f64::MIN, f64::max);
            let got = h.search_prefix_with_context(prefix, ctx);
            match &got {
                None if best == f64::MIN => {}
                Some(g) if m.contains_key(g) && g.starts_with(prefix) && (eff(g, &m[g]) >= best || near(eff(g, &m[g]), best)) => {}
                _ => return Err(format!("the best directory starting with {prefix:?} (project {ctx:?}) is given as {got:?}, of {m:?}")),
            }
        }
        for pat in ["aa/x", "x0", "bb/y2", "zz", "XX"] {
            let got = h.sort_by_match_with_context(pat, ctx);
            for k in m.keys() {
                let n = got.iter().filter(|i| &i.item == k).count();
                if n > 1 || (n == 1 && !subsequence(k, pat)) || (n == 0 && pat.len() > 3 && k.contains(pat)) {
                    return Err(format!("searching {pat:?} gives {:?}, of {:?}", got.iter().map(|i| &i.item).collect::<Vec<_>>(), m.keys()));
                }
            }
            if let Some(i) = got.iter().find(|i| !m.contains_key(&i.item)) {
                return Err(format!("searching {pat:?} gives {:?}, which is not known", i.item));
            }
            for p in got.windows(2) {
                if p[0].match_score < p[1].match_score {
                    return Err(format!("searching {pat:?} gives a worse match first"));
                }
                if p[0].match_score == p[1].match_score {
                    order(&format!("searching {pat:?} (project {ctx:?})"), p, m, eff, near)?;
                }
            }
        }
    }
    let root = Path::new(&w.dirs[0]).parent().unwrap().display().to_string();
    let latest = m.iter().filter(|(k, _)| k.starts_with(&root)).map(|(_, p)| p.last).fold(f64::MIN, f64::max);
    match h.search_recent_prefix(&root) {
        None if latest == f64::MIN => {}
        Some(g) if m.get(&g).is_some_and(|p| close(p.last, latest) || p.last > latest) => {}
        g => return Err(format!("the most recent directory starting with {root:?} is given as {g:?}, of {m:?}")),
    }
    Ok(())
}

fn sequence(w: &mut World, pop: usize, ops: &[Op]) -> Result<bool, String> {
    w.n += 1;
    let name = format!("d{}", w.n);
    for d in &w.dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    let r = sequence_in(w, &name, pop, ops);
    std::env::set_current_dir("/").unwrap();
    for s in ["", "-wal", "-shm"] {
        let _ = std::fs::remove_file(w.data.join(format!("dsh/{name}.db{s}")));
    }
    r
}

fn sequence_in(w: &World, name: &str, pop: usize, ops: &[Op]) -> Result<bool, String> {
    let (writer, two) = (pop >= 10, pop < 10);
    // single precision cannot tell visits within a fraction of a second apart in a session this old
    let coarse = pop % 10 == 2;
    let (a, mut store) = population(pop, w, name)?;
    let mut s = vec![a];
    if two {
        s.push(S { h: open(name, false)?, m: store.clone(), changed: false });
    }
    let mut nontrivial = false;
    view(&s[0], w, coarse).map_err(|m| format!("at the start: {m}"))?;
    for (step, op) in ops.iter().enumerate() {
        match *op {
            V(i, d) | Lazy(i, d) => {
                std::thread::sleep(Duration::from_millis(2));
                std::fs::create_dir_all(&w.dirs[d]).unwrap();
                // the project a directory belongs to can change
                let ctx = if matches!(op, Lazy(..)) { Path::new(&w.dirs[d]).parent().unwrap().display().to_string() } else { w.dirs[d].clone() };
                std::env::set_current_dir(&ctx).unwrap();
                let seen_elsewhere = ops[step + 1..].iter().any(|o| matches!(o, Restart(_) | Crash | Reload(_) | V(1, _) | Lazy(1, _)));
                if coarse && i == 0 && seen_elsewhere {
                    // not at a moment this session would round up: a visit within that time by a
                    // session with another reference would count as the earlier one
                    let start = s[0].h.store.as_ref().unwrap().reference_time;
                    loop {
                        let t = current_time_secs() - start;
                        let r = t as f32;
                        if f32::from_bits(r.to_bits() + 1) - r < 0.01 || (t + 0.004) as f32 as f64 <= t {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                let now = current_time_secs();
                let e = s[i].m.entry(w.dirs[d].clone()).or_insert(P { score: 0.0, last: now, count: 0, ctx: String::new() });
                *e = P { score: e.at(now) + 1.0, last: now, count: e.count + 1, ctx };
                s[i].changed = true;
                s[i].h.add(&w.dirs[d]);
                if matches!(op, V(..)) {
                    save(&mut s[i], &mut store);
                }
            }
            Reload(i) => {
                s[i].h.reload().map_err(|e| e.to_string())?;
                for (path, p) in &store {
                    if s[i].m.get(path).is_none_or(|q| p.last > q.last) {
                        s[i].m.insert(path.clone(), p.clone());
                    }
                }
            }
            Restart(i) => {
                save(&mut s[i], &mut store);
                s[i] = S { h: open(name, writer)?, m: store.clone(), changed: false };
            }
            Crash => {
                s[0] = S { h: open(name, writer)?, m: store.clone(), changed: false };
            }
            Prune => {
                std::env::set_current_dir("/").unwrap();
                let _ = std::fs::remove_dir(&w.dirs[1]);
                s[0].h.prune();
                s[0].h.save().map_err(|e| e.to_string())?;
                let had = s[0].m.remove(&w.dirs[1]).is_some();
                if had {
                    store.remove(&w.dirs[1]);
                }
                // z -c writes what else has changed
                s[0].changed |= had;
                for (path, p) in s[0].m.clone() {
                    if s[0].changed && store.get(&path).is_none_or(|q| p.last >= q.last) {
                        store.insert(path, p);
                    }
                }
                s[0].changed = false;
            }
        }
        for (i, s) in s.iter().enumerate() {
            nontrivial |= s.m.len() > 1;
            view(s, w, coarse).map_err(|m| format!("session {i} after step {step} ({op:?}): {m}"))?;
        }
    }
    let end = S { h: open(name, false)?, m: store, changed: false };
    view(&end, w, coarse).map_err(|m| format!("in a new session at the end: {m}"))?;
    Ok(nontrivial)
}

// ---- whole shells ----

fn snapshot(home: &Path) -> Result<BTreeMap<String, i64>, String> {
    let db = Db::new(home.join("data/dsh/dsh_directory_history.db")).map_err(|e| e.to_string())?;
    let c = db.get_connection();
    let mut s = c.prepare("SELECT path, access_count FROM directory_snapshot").map_err(|e| e.to_string())?;
    let r = s.query_map([], |r| Ok((r.get(0)?, r.get(1)?))).map_err(|e| e.to_string())?;
    Ok(r.flatten().collect())
}

const NAMES: [&str; 3] = ["kappa0", "kappa1", "kappa2"];

/// The history is loaded while a session starts: what is not right after 300 ms is tried again with 3 s.
fn shells(c: &Ctx, sessions: &[Vec<usize>], exclude: bool) -> Result<(), String> {
    shells_in(c, sessions, exclude, 300).or_else(|_| shells_in(c, sessions, exclude, 3000))
}

fn shells_in(c: &Ctx, sessions: &[Vec<usize>], exclude: bool, wait: u32) -> Result<(), String> {
    let mut sh = Sh::new(&c.scratch);
    let data = sh.home.join("data");
    let _ = std::fs::remove_dir_all(&data);
    sh.env.push(("XDG_DATA_HOME".into(), data.display().to_string()));
    let at = |d: usize| sh.dir.join(NAMES[d]).display().to_string();
    let dirs: Vec<String> = (0..3).map(at).collect();
    for d in &dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    let start = sh.dir.display().to_string();
    if exclude {
        sh.env.push(("Z_EXCLUDE".into(), format!("/nowhere/*:{}", if sessions[0].is_empty() { dirs[2].clone() } else { format!("{}/*2", start) })));
    }
    let mut want: BTreeMap<String, i64> = BTreeMap::new();
    let mut recent: Vec<String> = vec![];
    let visit = |d: &str, want: &mut BTreeMap<String, i64>, recent: &mut Vec<String>| {
        if exclude && d == dirs[2] {
            return;
        }
        *want.entry(d.to_string()).or_default() += 1;
        recent.retain(|x| x != d);
        recent.insert(0, d.to_string());
    };
    let end = |o: &Out, what: &str| if o.timed_out { Err(format!("{what} does not end")) } else { Ok(()) };
    for s in sessions {
        visit(&start, &mut want, &mut recent);
        let lines: Vec<String> = s.iter().map(|d| format!("cd {}", dirs[*d])).collect();
        s.iter().for_each(|d| visit(&dirs[*d], &mut want, &mut recent));
        let lines: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        end(&sh.session(&lines), "a session")?;
    }
    if snapshot(&sh.home)? != want {
        return Err(format!("stored after {sessions:?}: {:?}, should be {want:?}", snapshot(&sh.home)?));
    }
    // list and jump
    visit(&start, &mut want, &mut recent);
    let o = sh.session(&[&format!("slp {wait}"), "z -l", "z kappa", "rec at", &format!("cd {start}"), "z kappa1", "rec at1", &format!("cd {start}"), "z nowhere-to-be-found", "rec at2"]);
    end(&o, "the last session")?;
    let listed: Vec<String> = o.text().lines().filter_map(|l| l.split_once("   ")).map(|(_, p)| p.trim().to_string()).collect();
    let place = |tag: &str| o.log.iter().find(|l| l["argv"][0] == tag).and_then(|l| l["cwd"].as_str()).map(String::from);
    let most = dirs.iter().filter_map(|d| want.get(d)).max().copied();
    let best: Vec<&String> = dirs.iter().filter(|d| most.is_some() && want.get(*d).copied() == most).collect();
    let why = |m: String| Err(format!("after {sessions:?}: {m}"));
    if listed != recent {
        return why(format!("z -l lists {listed:?}, should be {recent:?}"));
    }
    if !place("at").is_some_and(|p| if best.is_empty() { p == start } else { best.contains(&&p) }) {
        return why(format!("z kappa leads to {:?}, should be one of {best:?}", place("at")));
    }
    if place("at1").as_deref() != Some(if want.contains_key(&dirs[1]) { &dirs[1] } else { &start }) {
        return why(format!("z kappa1 leads to {:?}", place("at1")));
    }
    if place("at2").as_deref() != Some(&start) {
        return why(format!("z with a text that matches nothing leads to {:?}", place("at2")));
    }
    Ok(())
}

fn shown(pop: usize, ops: &[Op]) -> String {
    format!("pop{pop}:{}", ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(","))
}

fn one(c: &mut Ctx, w: &mut World, pop: usize, k: &[usize]) {
    let alphabet = if pop < 10 { TWO } else { ONE };
    let ops: Vec<Op> = k.iter().map(|i| alphabet[*i]).collect();
    let key = shown(pop, &ops);
    c.begin(&key);
    c.traces += 1;
    c.transitions += ops.len() as u64;
    c.state(&key);
    match catch(|| sequence(w, pop, &ops)).and_then(|r| r) {
        Ok(n) => c.eval(&key, n),
        Err(m) => {
            c.eval(&key, true);
            c.violation(key.clone(), format!("{key}: {m}"), json!({"pop": pop, "ops": k}));
        }
    }
}

fn run(c: &mut Ctx) {
    let data = PathBuf::from(std::env::var("XDG_DATA_HOME").unwrap());
    let root = c.scratch.join("work");
    let dirs = ["aa/x0", "aa/x1", "bb/y2"].map(|d| root.join(d).display().to_string()).to_vec();
    let mut w = World { n: 0, data, dirs };
    let sess = |c: &mut Ctx, s: &[Vec<usize>], ex: bool| {
        c.traces += 1;
        c.transitions += s.iter().map(|s| s.len() as u64 + 1).sum::<u64>();
        let key = format!("shells:{s:?}:{ex}");
        c.begin(&key);
        c.state(&key);
        let r = shells(c, s, ex);
        c.eval(&key, true);
        if let Err(m) = r {
            c.violation(key, m, json!({"sessions": s, "exclude": ex}));
        }
    };
    if let Some(o) = c.only.clone() {
        if o["pop"].is_u64() {
            unsafe { std::env::set_var("PATH", "/nonexistent") };
            let k: Vec<usize> = serde_json::from_value(o["ops"].clone()).unwrap();
            one(c, &mut w, o["pop"].as_u64().unwrap() as usize, &k);
        } else {
            let s: Vec<Vec<usize>> = serde_json::from_value(o["sessions"].clone()).unwrap();
            sess(c, &s, o["exclude"] == true);
        }
        return;
    }
    let len = if c.thorough() { 3 } else { 2 };
    let mut list = vec![];
    for l in 0..=len {
        sequences(3, l, |s| list.push(s.to_vec()));
    }
    for a in &list {
        for b in &list {
            if a.len() + b.len() <= 3 || c.thorough() {
                if c.mine() {
                    sess(c, &[a.clone(), b.clone()], false);
                }
                if (a.contains(&2) || b.contains(&2)) && a.len() + b.len() <= 2 && c.mine() {
                    sess(c, &[a.clone(), b.clone()], true);
                }
            }
        }
    }
    c.sample(json!({"sessions": [["cd kappa0", "cd kappa1"], ["cd kappa0"]], "then": ["z -l", "z kappa"]}));
    unsafe { std::env::set_var("PATH", "/nonexistent") };
    let depth = if c.thorough() { 5 } else { 4 };
    for pop in [0, 1, 10, 11, 12, 13] {
        let n = if pop < 10 { TWO.len() } else { ONE.len() };
        for l in 0..=depth {
            sequences(n, l, |k| {
                if c.mine() && c.violations.len() < 20 {
                    one(c, &mut w, pop, k);
                }
            });
        }
    }
    c.sample(json!({"operations": TWO.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>(), "one session": ONE.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()}));
}
