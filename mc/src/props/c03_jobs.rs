//! C03: jobs. The real shell on a terminal is driven through every transition of a model of its
//! job table (jobs of one and two stages, running and stopped, in the background, brought to the
//! foreground, stopped, continued, interrupted, ended and killed from outside), with and without
//! a pseudo terminal per job; after each one the `jobs` table and the processes themselves are
//! compared with the model.
use super::super::bb::{Sh, Tty};
use crate::common::*;
use serde_json::json;
use std::collections::{HashSet, VecDeque};
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        id: "C03",
        level: "model_checking",
        rule: "every transition of the model of the job table up to the number of jobs (one or two stages each, running or stopped, first stage ended or not), in walks that together take each transition of each state, driven in the real shell on a terminal, with and without DSH_NO_PTY; after each one the jobs table (numbers, states, order, commands) and the state of every process in /proc are compared with the model, at the end that leaving the shell leaves no process behind",
        assumptions: &["keys are sent once the job has the terminal", "what a job's first reader does when a later stage ends first is not claimed"],
        shards: 20,
        hang_s: 120,
        run,
    }
}

/// One job of the abstract model: (stages, first stage ended, stopped)
type A = (u8, bool, bool);
type S = Vec<A>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
enum Op {
    /// `hld a &`, `hld a | hld b &`
    Bg(u8),
    /// a new job in the foreground, then a key or its end
    New(u8, How),
    /// `fg` (0: no argument; else the job in that place), then a key or its end
    Fg(usize, How),
    Bgc(usize),
    /// the job in that place ends: its first stage only, or the whole
    Half(usize),
    End(usize),
    /// a signal from outside to every process of the job
    Stop(usize),
    Kill(usize),
    /// another command in the foreground
    Quick,
    /// the job ends while another command runs in the foreground
    During(usize),
    /// commands that fail or know no such job
    Bad(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
enum How {
    Intr,
    Susp,
    Exit,
}
use How::*;

const BADS: &[&str] = &["fg %77", "bg %77", "fg zz", "alias | ex 1", "ex 3 | rec x", "nosuchcmd", "rec x | ex 4"];

/// Where the operation leads; None if it does not apply.
fn next(s: &S, op: &Op, pty: bool, max: usize) -> Option<S> {
    let mut n = s.clone();
    match op {
        Op::Bg(k) => {
            if s.len() >= max {
                return None;
            }
            n.push((*k, false, false));
        }
        Op::New(k, h) => match h {
            Susp => {
                if s.len() >= max || pty {
                    return None;
                }
                n.push((*k, false, true));
            }
            _ => {}
        },
        Op::Fg(i, h) => {
            let at = place(s.len(), *i)?;
            let mut j = n.remove(at);
            if *h == Susp {
                j.2 = true;
                n.push(j);
            }
        }
        Op::Bgc(i) => {
            let at = if *i == 0 { s.iter().rposition(|j| j.2) } else { Some(place(s.len(), *i)?) };
            // refused
            let Some(at) = at.filter(|a| s[*a].2) else { return Some(n) };
            let mut j = n.remove(at);
            j.2 = false;
            n.push(j);
        }
        Op::Half(i) => {
            let j = n.get_mut(*i)?;
            if j.0 != 2 || j.1 || j.2 {
                return None;
            }
            j.1 = true;
        }
        Op::End(i) | Op::During(i) => {
            if s.get(*i)?.2 {
                return None;
            }
            n.remove(*i);
        }
        Op::Stop(i) => {
            let j = n.get_mut(*i)?;
            if j.2 {
                return None;
            }
            j.2 = true;
        }
        Op::Kill(i) => {
            s.get(*i)?;
            n.remove(*i);
        }
        Op::Quick | Op::Bad(_) => {}
    }
    Some(n)
}
fn place(len: usize, i: usize) -> Option<usize> {
    if len == 0 || i > len {
        return None;
    }
    Some(if i == 0 { len - 1 } else { i - 1 })
}

fn ops(max: usize, stages: u8) -> Vec<Op> {
    let mut v = vec![Op::Quick];
    for k in 1..=stages {
        v.push(Op::Bg(k));
        for h in [Intr, Susp, Exit] {
            v.push(Op::New(k, h));
        }
    }
    for i in 0..=max {
        for h in [Intr, Susp, Exit] {
            v.push(Op::Fg(i, h));
        }
        v.push(Op::Bgc(i));
    }
    for i in 0..max {
        v.extend([Op::Half(i), Op::End(i), Op::Stop(i), Op::Kill(i), Op::During(i)]);
    }
    v.extend(BADS.iter().map(|b| Op::Bad(b)));
    v
}

/// Walks from the empty table that together take every transition.
fn tours(pty: bool, max: usize, stages: u8, len: usize) -> (Vec<Vec<Op>>, usize, usize) {
    let all = ops(max, stages);
    let mut states: Vec<S> = vec![vec![]];
    let mut seen: HashSet<S> = states.iter().cloned().collect();
    let mut todo: HashSet<(S, usize)> = HashSet::new();
    let mut i = 0;
    while i < states.len() {
        let s = states[i].clone();
        for (k, o) in all.iter().enumerate() {
            if let Some(n) = next(&s, o, pty, max) {
                todo.insert((s.clone(), k));
                if seen.insert(n.clone()) {
                    states.push(n);
                }
            }
        }
        i += 1;
    }
    let total = todo.len();
    let mut out = vec![];
    while !todo.is_empty() {
        let mut s: S = vec![];
        let mut walk = vec![];
        while walk.len() < len {
            // the nearest transition not taken yet
            let mut q: VecDeque<(S, Vec<usize>)> = VecDeque::from([(s.clone(), vec![])]);
            let mut vis: HashSet<S> = HashSet::from([s.clone()]);
            let mut found = None;
            'bfs: while let Some((x, path)) = q.pop_front() {
                for (k, o) in all.iter().enumerate() {
                    let Some(n) = next(&x, o, pty, max) else { continue };
                    let mut p = path.clone();
                    p.push(k);
                    if todo.contains(&(x.clone(), k)) {
                        found = Some(p);
                        break 'bfs;
                    }
                    if vis.insert(n.clone()) {
                        q.push_back((n, p));
                    }
                }
            }
            let Some(p) = found else { break };
            if !walk.is_empty() && walk.len() + p.len() > len {
                break;
            }
            for k in p {
                let n = next(&s, &all[k], pty, max).unwrap();
                todo.remove(&(s.clone(), k));
                walk.push(all[k].clone());
                s = n;
            }
        }
        out.push(walk);
    }
    (out, states.len(), total)
}

struct Job {
    id: Option<usize>,
    cmd: String,
    stages: Vec<(String, i32)>,
    half: bool,
    stopped: bool,
}

struct Run {
    t: Tty,
    jobs: Vec<Job>,
    n: usize,
    log: std::path::PathBuf,
    all: Vec<i32>,
}

fn proc_state(pid: i32) -> char {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return '-' };
    s.rsplit_once(") ").and_then(|x| x.1.chars().next()).unwrap_or('-')
}

const LIMIT: Duration = Duration::from_secs(10);

impl Run {
    fn miss(&self, what: &str) -> String {
        // without the escape sequences, and without a line drawn again for every key
        let t = self.t.text();
        let mut plain = String::new();
        let mut i = t.chars().peekable();
        while let Some(ch) = i.next() {
            match ch {
                '\x1b' => match i.next() {
                    Some('[') => while i.next().is_some_and(|c| !c.is_ascii_alphabetic()) {},
                    Some(']') => while i.next().is_some_and(|c| c != '\x07' && c != '\\') {},
                    _ => {}
                },
                '\r' if i.peek() != Some(&'\n') => while plain.chars().last().is_some_and(|c| c != '\n') {
                    plain.pop();
                },
                '\r' | '─' => {}
                c => plain.push(c),
            }
        }
        let tail: String = plain.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{what}; the terminal shows {tail:?}")
    }
    fn new_stage(&mut self) -> String {
        self.n += 1;
        format!("j{}", self.n)
    }
    fn pid_of(&mut self, name: &str) -> Result<i32, String> {
        let find = |l: &[serde_json::Value]| l.iter().find(|e| e["cmd"] == "hld" && e["argv"][0] == name).and_then(|e| e["pid"].as_i64());
        if !self.t.wait_log(|l| find(l).is_some()) {
            return Err(self.miss("the command was not started"));
        }
        let p = find(&self.t.log()).unwrap() as i32;
        self.all.push(p);
        Ok(p)
    }
    /// A way to name the job in that place; another one each time.
    fn spec(&self, cmd: &str, i: usize, at: usize, len: usize, id: usize) -> String {
        if i == 0 {
            return cmd.to_string();
        }
        let mut f = vec![format!("%{id}"), id.to_string()];
        if at + 1 == len {
            f.extend(["%+".into(), "+".into()]);
        } else if at + 2 == len {
            f.extend(["%-".into(), "-".into()]);
        }
        format!("{cmd} {}", f[self.all.len() % f.len()])
    }
    fn release(&self, name: &str, code: i32) {
        let p = format!("{}.{name}.go", self.log.display());
        std::fs::write(format!("{p}.tmp"), code.to_string()).unwrap();
        std::fs::rename(format!("{p}.tmp"), p).unwrap();
    }
    /// A command of k stages: the job it makes, once all of them run.
    fn start(&mut self, k: u8, bg: bool) -> Result<Job, String> {
        let names: Vec<String> = (0..k).map(|_| self.new_stage()).collect();
        let mut cmd = names.iter().map(|n| format!("hld {n}")).collect::<Vec<_>>().join(" | ");
        if bg {
            cmd += " &";
            let (code, _) = self.t.line(&cmd).ok_or_else(|| self.miss("no prompt after a command in the background"))?;
            if code != 0 {
                return Err(self.miss(&format!("status {code} of a command in the background")));
            }
        } else {
            self.t.send(&format!("{cmd}\r"));
        }
        let mut stages = vec![];
        for n in names {
            let p = self.pid_of(&n)?;
            stages.push((n, p));
        }
        Ok(Job { id: None, cmd, stages, half: false, stopped: false })
    }
    fn live(j: &Job) -> impl Iterator<Item = &(String, i32)> {
        j.stages.iter().skip(j.half as usize)
    }
    /// Until the job's processes are all in one of these states.
    fn procs(&mut self, j: &Job, states: &str, what: &str) -> Result<(), String> {
        let pids: Vec<i32> = Self::live(j).map(|s| s.1).collect();
        if self.t.until(LIMIT, |_| pids.iter().all(|p| states.contains(proc_state(*p)))) {
            return Ok(());
        }
        let now: String = pids.iter().map(|p| proc_state(*p)).collect();
        Err(self.miss(&format!("{what}: the processes of `{}` are {now:?}", j.cmd)))
    }
    /// What happens to a job that has been started in or brought to the foreground.
    fn front(&mut self, mut j: Job, h: How, own: bool, pty: bool) -> Result<(), String> {
        match h {
            Exit => {
                let live: Vec<String> = Self::live(&j).map(|s| s.0.clone()).collect();
                for (i, n) in live.iter().enumerate() {
                    self.release(n, if i + 1 == live.len() { 5 } else { 0 });
                }
            }
            _ => {
                // with a pseudo terminal per job the shell passes the keys on itself
                if !(own && pty) {
                    let g = j.stages[0].1;
                    let pids: Vec<i32> = Self::live(&j).map(|s| s.1).collect();
                    if !self.t.until(LIMIT, |t| t.foreground() == g && pids.iter().all(|p| !"T-".contains(proc_state(*p)))) {
                        return Err(self.miss("in the foreground, without the terminal or not running"));
                    }
                }
                self.t.send(if h == Intr { "\x03" } else { "\x1a" });
            }
        }
        let (code, _) = self.t.done().ok_or_else(|| self.miss(&format!("no prompt after {h:?} of a job in the foreground")))?;
        if h == Susp {
            self.procs(&j, "T", "stopped by the key")?;
            j.stopped = true;
            self.jobs.push(j);
        } else {
            self.procs(&j, "-", "ended in the foreground")?;
            if own && h == Exit && code != 5 {
                return Err(format!("status {code} of a command that ended with 5"));
            }
            if own && h == Intr && code == 0 {
                return Err("status 0 of an interrupted command".into());
            }
        }
        Ok(())
    }
    fn apply(&mut self, op: &Op, pty: bool) -> Result<(), String> {
        match op {
            Op::Bg(k) => {
                let j = self.start(*k, true)?;
                self.jobs.push(j);
            }
            Op::New(k, h) => {
                let j = self.start(*k, false)?;
                self.front(j, *h, true, pty)?;
            }
            Op::Fg(i, h) => {
                let at = place(self.jobs.len(), *i).unwrap();
                let mut j = self.jobs.remove(at);
                let l = self.spec("fg", *i, at, self.jobs.len() + 1, j.id.unwrap());
                self.t.send(&format!("{l}\r"));
                // a job that ended before `fg` looked would not be the one brought to the foreground
                if self.t.wait("\x1b]133;C").is_none() {
                    return Err(self.miss("fg is not run"));
                }
                // a job that was stopped runs again
                if j.stopped && *h == Exit {
                    self.procs(&j, "SRD", "continued by fg")?;
                }
                j.stopped = false;
                self.front(j, *h, false, pty)?;
            }
            Op::Bgc(i) => {
                let at = if *i == 0 { self.jobs.iter().rposition(|j| j.stopped) } else { Some(i - 1) };
                let l = match at {
                    Some(at) => self.spec("bg", *i, at, self.jobs.len(), self.jobs[at].id.unwrap()),
                    None => "bg".to_string(),
                };
                let (code, _) = self.t.line(&l).ok_or_else(|| self.miss("no prompt after bg"))?;
                let Some(at) = at.filter(|a| self.jobs[*a].stopped) else {
                    if code == 0 && !self.jobs.is_empty() {
                        return Err(self.miss(&format!("status 0 of `{l}` with nothing to continue")));
                    }
                    return Ok(());
                };
                let mut j = self.jobs.remove(at);
                if code != 0 {
                    return Err(self.miss(&format!("status {code} of `{l}`")));
                }
                j.stopped = false;
                self.jobs.push(j);
            }
            Op::Half(i) => {
                let n = self.jobs[*i].stages[0].clone();
                self.release(&n.0, 0);
                // the shell takes note of it
                if !self.t.until(LIMIT, |_| proc_state(n.1) == '-') {
                    return Err(self.miss("a stage that has ended is not waited for"));
                }
                self.jobs[*i].half = true;
            }
            Op::End(i) => {
                let j = self.jobs.remove(*i);
                let mut live: Vec<_> = Self::live(&j).cloned().collect();
                if live.len() > 1 && self.n % 2 == 0 {
                    // the last stage first: with it the job is over, the others are still to be waited for
                    let last = live.pop().unwrap();
                    self.release(&last.0, 0);
                    if !self.t.until(LIMIT, |_| proc_state(last.1) == '-') {
                        return Err(self.miss("the last stage has ended and is not waited for"));
                    }
                }
                for s in &live {
                    self.release(&s.0, 0);
                }
                self.procs(&j, "-", "ended in the background, not waited for")?;
            }
            Op::During(i) => {
                let n = self.new_stage();
                self.t.send(&format!("hld {n}\r"));
                self.pid_of(&n)?;
                let j = self.jobs.remove(*i);
                for s in Self::live(&j) {
                    self.release(&s.0, 0);
                }
                let pids: Vec<i32> = Self::live(&j).map(|s| s.1).collect();
                self.t.until(LIMIT, |_| pids.iter().all(|p| "-Z".contains(proc_state(*p))));
                std::thread::sleep(Duration::from_millis(120));
                self.release(&n, 6);
                let (code, _) = self.t.done().ok_or_else(|| self.miss("no prompt after a command during which a job ended"))?;
                if code != 6 {
                    return Err(format!("status {code} of a command that ended with 6 while a job ended"));
                }
                self.procs(&j, "-", "ended during another command, not waited for")?;
            }
            Op::Stop(i) => {
                for s in Self::live(&self.jobs[*i]) {
                    unsafe { libc::kill(s.1, libc::SIGSTOP) };
                }
                self.jobs[*i].stopped = true;
            }
            Op::Kill(i) => {
                let j = self.jobs.remove(*i);
                for s in Self::live(&j) {
                    unsafe { libc::kill(s.1, libc::SIGKILL) };
                }
                self.procs(&j, "-", "killed, not waited for")?;
            }
            Op::Quick => {
                let (code, _) = self.t.line("ex 7").ok_or_else(|| self.miss("no prompt"))?;
                if code != 7 {
                    return Err(format!("status {code} of a command that ended with 7"));
                }
            }
            Op::Bad(l) => {
                self.t.line(l).ok_or_else(|| self.miss(&format!("no prompt after `{l}`")))?;
            }
        }
        Ok(())
    }
    /// The table against the model, the processes against both.
    fn check(&mut self) -> Result<(), String> {
        let jobs = std::mem::take(&mut self.jobs);
        for j in &jobs {
            self.procs(j, if j.stopped { "T" } else { "SRD" }, if j.stopped { "stopped" } else { "running" })?;
        }
        self.jobs = jobs;
        let t0 = Instant::now();
        loop {
            let (_, out) = self.t.line("jobs").ok_or_else(|| self.miss("no prompt after `jobs`"))?;
            let got: Vec<(usize, i32, String, String)> = out
                .lines()
                .filter_map(|l| {
                    let c: Vec<&str> = l.trim_matches(|c| c == '\r' || c == ' ').strip_prefix('|')?.splitn(4, '|').collect();
                    Some((c.first()?.trim().parse().ok()?, c.get(1)?.trim().parse().ok()?, c.get(2)?.trim().to_string(), c.get(3)?.trim_end_matches(['|', ' ']).trim().to_string()))
                })
                .collect();
            let want: Vec<(i32, String, String)> = self
                .jobs
                .iter()
                .map(|j| (j.stages[0].1, if j.stopped { "stopped" } else { "running" }.to_string(), j.cmd.clone()))
                .collect();
            let g: Vec<(i32, String, String)> = got.iter().map(|x| (x.1, x.2.clone(), x.3.clone())).collect();
            if g != want {
                // the last stages of a job that is over are taken note of a little later
                if t0.elapsed() < Duration::from_secs(3) && g.len() >= want.len() {
                    std::thread::sleep(Duration::from_millis(200));
                    continue;
                }
                return Err(format!("`jobs` shows {g:?}, expected {want:?}"));
            }
            let mut ids = HashSet::new();
            for (j, x) in self.jobs.iter_mut().zip(&got) {
                if !ids.insert(x.0) {
                    return Err(format!("two jobs have the number {}", x.0));
                }
                if *j.id.get_or_insert(x.0) != x.0 {
                    return Err(format!("the number of `{}` changed from {:?} to {}", j.cmd, j.id, x.0));
                }
            }
            return Ok(());
        }
    }
    fn leave(&mut self) -> Result<(), String> {
        if !self.jobs.is_empty() {
            // the first time it only warns
            self.t.line("exit").ok_or_else(|| self.miss("no prompt after `exit` with jobs"))?;
            let jobs = std::mem::take(&mut self.jobs);
            for j in &jobs {
                self.procs(j, if j.stopped { "T" } else { "SRD" }, "after the warning of `exit`")?;
            }
        }
        if !self.t.exit() {
            return Err(self.miss("the shell does not end"));
        }
        let all = self.all.clone();
        let t = Instant::now();
        while all.iter().any(|p| !"-Z".contains(proc_state(*p))) {
            if t.elapsed() > Duration::from_secs(5) {
                return Err(format!("left behind by the shell: {:?}", all.iter().map(|p| proc_state(*p)).collect::<String>()));
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        Ok(())
    }
}

impl Drop for Run {
    fn drop(&mut self) {
        for p in &self.all {
            // only what we started ourselves: its command line tells
            if std::fs::read(format!("/proc/{p}/cmdline")).is_ok_and(|c| c.starts_with(b"hld\0") || c.windows(5).any(|w| w == b"/hld\0")) {
                unsafe { libc::kill(*p, libc::SIGKILL) };
            }
        }
    }
}

fn clean(log: &std::path::Path) {
    let (Some(d), Some(n)) = (log.parent(), log.file_name().and_then(|n| n.to_str())) else { return };
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        if e.file_name().to_str().is_some_and(|f| f.starts_with(&format!("{n}."))) {
            let _ = std::fs::remove_file(e.path());
        }
    }
}

fn walk(c: &mut Ctx, sh: &mut Sh, pty: bool, max: usize, w: &[Op]) {
    let mode = if pty { "pty" } else { "nopty" };
    let key = format!("{mode}: {}", w.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "));
    if c.only.as_ref().is_some_and(|o| o["walk"] != *key) {
        return;
    }
    c.begin(&key);
    sh.env = if pty { vec![] } else { vec![("DSH_NO_PTY".into(), "1".into())] };
    clean(&sh.log);
    let mut r = Run { t: sh.tty(), jobs: vec![], n: 0, log: sh.log.clone(), all: vec![] };
    let mut s: S = vec![];
    let mut res = if r.t.ready() { Ok(()) } else { Err(r.miss("no prompt")) };
    let mut at = format!("{mode} start");
    if res.is_ok() {
        for op in w {
            at = format!("{mode} {s:?} {op:?}");
            s = next(&s, op, pty, max).unwrap();
            res = r.apply(op, pty).and_then(|_| r.check());
            c.transitions += 1;
            c.state(&(pty, s.clone()));
            c.eval(&at, true);
            if res.is_err() {
                break;
            }
        }
    }
    if res.is_ok() {
        at = format!("{mode} {s:?} exit");
        res = r.leave();
    }
    c.traces += 1;
    if let Err(e) = res {
        c.violation(at.clone(), format!("{at}: {e}"), json!({"walk": key}));
    } else if w.len() > 5 {
        c.sample(json!({"walk": key, "ends_in": format!("{s:?}")}));
    }
    drop(r);
    clean(&sh.log);
}

/// With a pseudo terminal of its own a job started in the foreground must stop on the key too.
fn suspend_pty(c: &mut Ctx, sh: &mut Sh) {
    let key = "pty suspend";
    if c.only.as_ref().is_some_and(|o| o["walk"] != *key) {
        return;
    }
    c.begin(key);
    sh.env = vec![];
    clean(&sh.log);
    let mut r = Run { t: sh.tty(), jobs: vec![], n: 0, log: sh.log.clone(), all: vec![] };
    let res = (|| {
        if !r.t.ready() {
            return Err(r.miss("no prompt"));
        }
        let j = r.start(1, false)?;
        std::thread::sleep(Duration::from_millis(300));
        r.t.send("\x1a");
        let pid = j.stages[0].1;
        if !r.t.until(Duration::from_secs(3), |_| proc_state(pid) == 'T') {
            return Err(format!("the process is {:?} after the suspend key", proc_state(pid)));
        }
        Ok(())
    })();
    c.eval(key, true);
    c.traces += 1;
    if let Err(e) = res {
        c.violation(key, format!("{key}: {e}"), json!({"walk": key}));
    }
    drop(r);
    clean(&sh.log);
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    let full: &[(bool, usize, u8)] = &[(true, 3, 2), (false, 3, 2), (false, 4, 1)];
    let quick: &[(bool, usize, u8)] = &[(true, 2, 2), (false, 2, 2), (false, 3, 1)];
    let len = if c.thorough() { 30 } else { 16 };
    for &(pty, max, stages) in if c.thorough() { full } else { quick } {
        let (ts, states, total) = tours(pty, max, stages, len);
        if c.mine() {
            let n = format!("{}_{max}_jobs_{stages}_stages", if pty { "pty" } else { "nopty" });
            c.counters.insert(format!("model_states_{n}"), states as u64);
            c.counters.insert(format!("model_transitions_{n}"), total as u64);
        }
        for w in ts {
            if c.mine() {
                walk(c, &mut sh, pty, max, &w);
            }
        }
    }
    if c.mine() {
        suspend_pty(c, &mut sh);
    }
}
