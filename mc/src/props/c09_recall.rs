//! C09: recalling history. Every key sequence up to a length on a real shell on a terminal, against a
//! model of what Up/Down must bring; and every query over every small history on the real search.
use crate::bb::*;
use crate::common::*;
use doge_shell::db::Db;
use doge_shell::history::{Entry, History, HistoryMetadata, HistoryQuery, HistoryScope, HistoryStatusFilter};
use serde_json::json;
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        id: "C09",
        level: "model_checking",
        rule: "every sequence of keys (Up, Down, two letters, Backspace, Ctrl-C) up to the length, typed on a real interactive shell whose history is a stored list, then Enter: the command that runs must be the one the model of recall says. And every query (text, scope, status, duration, limit) over every history of up to three (the text queries: five) commands from a set of row kinds, run again and with older entries arriving, on the real search. Non-trivial: the sequence recalls something.",
        assumptions: &["keys arrive one at a time and none is lost between terminal and shell"],
        shards: 16,
        hang_s: 120,
        run,
    }
}

const KEYS: &[(&str, &str)] = &[("Up", "\x1b[A"), ("Down", "\x1b[B"), ("r", "r"), ("e", "e"), ("BS", "\x7f"), ("^C", "\x03")];
const START: &[&str] = &["rec a", "ex 0 e", "rec b", "rec r", "ex 0", "rec c"];

#[derive(Clone, Default)]
struct M {
    hist: Vec<String>,
    text: String,
    /// position in `hist`; its length: the line being typed
    idx: usize,
    word: Option<String>,
    recalled: bool,
}
impl M {
    fn new(h: &[String]) -> M {
        M { hist: h.to_vec(), idx: h.len(), ..M::default() }
    }
    fn matches(&self, i: usize) -> bool {
        self.word.as_ref().is_none_or(|w| self.hist[i].starts_with(w.as_str()))
    }
    fn rest(&mut self) {
        self.text.clear();
        self.word = None;
        self.idx = self.hist.len();
    }
    fn key(&mut self, k: usize) {
        match KEYS[k].0 {
            "Up" => {
                if self.text.is_empty() {
                    self.word = None;
                } else if self.idx == self.hist.len() {
                    self.word = Some(self.text.clone());
                }
                if let Some(i) = (0..self.idx).rev().find(|i| self.matches(*i)) {
                    self.idx = i;
                    self.text = self.hist[i].clone();
                    self.recalled = true;
                }
            }
            "Down" => {
                if self.text.is_empty() {
                    self.word = None;
                }
                if self.idx == self.hist.len() {
                    return;
                }
                match (self.idx + 1..self.hist.len()).find(|i| self.matches(*i)) {
                    Some(i) => {
                        self.idx = i;
                        self.text = self.hist[i].clone();
                    }
                    None => {
                        self.idx = self.hist.len();
                        self.text = self.word.clone().unwrap_or_default();
                    }
                }
            }
            "BS" => {
                self.text.pop();
            }
            "^C" => self.rest(),
            c => self.text.push_str(c),
        }
    }
    fn enter(&mut self) -> String {
        let line = std::mem::take(&mut self.text);
        if !line.is_empty() {
            self.hist.retain(|h| *h != line);
            self.hist.push(line.clone());
        }
        self.rest();
        line
    }
}

struct S {
    sh: Sh,
    t: Option<Tty>,
    m: Vec<String>,
}

impl S {
    /// A shell whose history is `hist`, loaded.
    fn start(&mut self, hist: &[String]) -> Result<(), String> {
        self.t = None;
        let data = self.sh.home.join("data");
        let _ = std::fs::remove_dir_all(&data);
        std::fs::create_dir_all(data.join("dsh")).unwrap();
        let db = Db::new(data.join("dsh/dsh_cmd_history.db")).map_err(|e| e.to_string())?;
        for (i, h) in hist.iter().enumerate() {
            db.get_connection().execute("INSERT INTO command_history (command, timestamp, count) VALUES (?1, ?2, 1)", (h, 100 + i as i64)).map_err(|e| e.to_string())?;
        }
        let mut t = self.sh.tty();
        if !t.ready() {
            return Err(format!("no prompt: {:?}", t.text()));
        }
        t.line("rec ready").ok_or("no prompt after a command")?;
        let t0 = Instant::now();
        loop {
            let c = db.get_connection();
            let n: i64 = c.query_row("SELECT count(*) FROM command_history WHERE command = 'rec ready'", [], |r| r.get(0)).map_err(|e| e.to_string())?;
            if n == 1 {
                break;
            }
            if t0.elapsed() > Duration::from_secs(15) {
                return Err("the first command is never stored".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_millis(150));
        let mut m = M::new(hist);
        m.text = "rec ready".into();
        m.enter();
        self.m = m.hist;
        self.t = Some(t);
        Ok(())
    }
    /// Type the keys and Enter. Err: not what the model says.
    fn keys(&mut self, keys: &[usize]) -> Result<bool, String> {
        let t = self.t.as_mut().unwrap();
        let before = t.cmds().len();
        let mut m = M::new(&self.m);
        for &k in keys {
            t.send(KEYS[k].1);
            if KEYS[k].0 == "^C" {
                match t.done() {
                    Some((130, _)) => {}
                    o => return Err(format!("Ctrl-C at the prompt: {o:?}")),
                }
                // the shell counts two within three seconds as a wish to leave
                t.send(" \x7f");
            }
            m.key(k);
        }
        let want = m.text.clone();
        if want.is_empty() {
            // nothing must run: show it by running something else
            t.send("rec nothing");
            m.text = "rec nothing".into();
        }
        let line = m.enter();
        let r = t.line("");
        let got: Vec<_> = t.cmds()[before..].iter().map(|(c, a)| std::iter::once(c.clone()).chain(a.iter().cloned()).collect::<Vec<_>>().join(" ")).collect();
        self.m = m.hist.clone();
        let w: Vec<&str> = line.split(' ').filter(|w| !w.is_empty()).collect();
        let expect: Vec<String> = if STUBS.contains(&w[0]) { vec![w.join(" ")] } else { vec![] };
        if r.is_none() {
            return Err(format!("no prompt after {line:?}: {:?}", t.text().chars().rev().take(200).collect::<String>().chars().rev().collect::<String>()));
        }
        if got != expect {
            return Err(format!("ran {got:?}, the line should be {line:?}"));
        }
        Ok(m.recalled)
    }
}

fn names(keys: &[usize]) -> String {
    keys.iter().map(|k| KEYS[*k].0).collect::<Vec<_>>().join(" ")
}

fn typed(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    sh.env.push(("XDG_DATA_HOME".into(), sh.home.join("data").display().to_string()));
    let mut s = S { sh, t: None, m: vec![] };
    if let Some(o) = c.only.clone() {
        let hist: Vec<String> = serde_json::from_value(o["hist"].clone()).unwrap();
        let keys: Vec<usize> = serde_json::from_value(o["keys"].clone()).unwrap();
        let r = s.start(&hist).and_then(|_| s.keys(&keys));
        match r {
            Ok(n) => c.eval(names(&keys), n),
            Err(m) => c.violation(format!("keys:{}", names(&keys)), format!("history {hist:?}, keys {}: {m}", names(&keys)), json!({"hist": hist, "keys": keys})),
        }
        return;
    }
    let len = if c.thorough() { 6 } else { 5 };
    let start: Vec<String> = START.iter().map(|s| s.to_string()).collect();
    // chunks of the enumeration, each on a shell of its own
    sequences(KEYS.len(), 2, |head| {
        // a sequence that starts by deleting nothing or with Down on the typed line is a shorter one
        if matches!(KEYS[head[0]].0, "BS" | "Down" | "^C") || !c.mine() {
            return;
        }
        let mut fresh = true;
        for l in 0..=len - 2 {
            sequences(KEYS.len(), l, |tail| {
                if c.violations.len() >= 5 {
                    return;
                }
                let keys: Vec<usize> = head.iter().chain(tail).copied().collect();
                c.begin(&names(&keys));
                if std::mem::take(&mut fresh) || s.t.is_none() || s.m.len() > 14 {
                    if let Err(m) = s.start(&start) {
                        c.violation("start", m, json!({"hist": start, "keys": []}));
                        return;
                    }
                }
                let hist = s.m.clone();
                c.traces += 1;
                c.transitions += keys.len() as u64;
                c.state((hist.clone(), keys.clone()));
                match s.keys(&keys) {
                    Ok(n) => c.eval(names(&keys), n),
                    Err(m) => {
                        s.t = None;
                        c.violation(format!("keys:{}", names(&keys)), format!("history {hist:?}, keys {}: {m}", names(&keys)), json!({"hist": hist, "keys": keys}));
                    }
                }
            });
        }
    });
    c.sample(json!({"history": START, "keys": KEYS.iter().map(|k| k.0).collect::<Vec<_>>()}));
}

// ---- search ----

// (command, directory, exit, duration, session)
type Kind = (&'static str, usize, Option<i32>, Option<u64>, Option<&'static str>);
const KINDS: &[Kind] = &[
    ("Make All", 0, Some(0), Some(1000), Some("s1")),
    ("make", 1, Some(2), Some(999), Some("s1")),
    ("ls", 0, None, None, None),
    ("ÄÖ make", 0, Some(-1), Some(1001), Some("s2")),
    ("x%_'", 1, Some(0), Some(0), Some("s2")),
];

const TEXTS: [Option<&str>; 7] = [None, Some("MAKE"), Some("äö"), Some("ÄÖ"), Some("%"), Some(""), Some("ls")];

fn queries() -> Vec<HistoryQuery> {
    let mut v = vec![];
    for text in TEXTS {
        for scope in [HistoryScope::Global, HistoryScope::Session, HistoryScope::Cwd, HistoryScope::Project] {
            for status in [HistoryStatusFilter::Any, HistoryStatusFilter::Success, HistoryStatusFilter::Failure] {
                for min in [None, Some(0), Some(1000)] {
                    for limit in [None, Some(0), Some(1), Some(2)] {
                        v.push(HistoryQuery {
                            text: text.map(String::from),
                            scope,
                            status,
                            min_duration_ms: min,
                            limit,
                            current_cwd: Some("/c0".into()),
                            current_project: Some(String::new()),
                            current_session_id: Some("s1".into()),
                        });
                    }
                }
            }
        }
    }
    v
}

fn wanted(e: &Entry, q: &HistoryQuery) -> bool {
    let text = q.text.as_ref().is_none_or(|t| e.entry.to_lowercase().contains(&t.to_lowercase()));
    let status = match q.status {
        HistoryStatusFilter::Any => true,
        HistoryStatusFilter::Success => e.exit_code == Some(0),
        HistoryStatusFilter::Failure => e.exit_code.is_some_and(|c| c != 0),
    };
    let long = q.min_duration_ms.is_none_or(|m| e.duration_ms.unwrap_or(0) >= m);
    let scope = match q.scope {
        HistoryScope::Global => true,
        HistoryScope::Session => e.session_id == q.current_session_id,
        HistoryScope::Cwd => e.cwd == q.current_cwd,
        HistoryScope::Project => e.context == q.current_project,
    };
    text && status && long && scope
}

fn search_history(c: &mut Ctx, kinds: &[usize]) {
    let dirs = [c.scratch.join("work/p1"), c.scratch.join("work/p2")];
    let mut h = History::new();
    for (i, &k) in kinds.iter().enumerate() {
        if k == KINDS.len() {
            // the older part of the stored history arrives
            let old = ["old MAKE", "ls", "äö"].iter().map(|e| Entry { entry: e.to_string(), when: -1, count: 1, context: None, exit_code: None, duration_ms: None, cwd: None, session_id: None, hostname: None });
            h.prepend(old.collect());
            continue;
        }
        let (cmd, d, code, dur, ses) = KINDS[k];
        std::env::set_current_dir(&dirs[d]).unwrap();
        h.write_batch(vec![(cmd.into(), i as i64)]).unwrap();
        if code.is_some() {
            let m = HistoryMetadata { exit_code: code, duration_ms: dur, cwd: Some(format!("/c{d}")), session_id: ses.map(String::from), hostname: None };
            h.record_outcome(cmd, m).unwrap();
        }
    }
    let all: Vec<Entry> = h.iter().cloned().collect();
    for (qi, q) in queries().into_iter().enumerate() {
        let plain = q.scope == HistoryScope::Global && q.status == HistoryStatusFilter::Any && q.min_duration_ms.is_none() && q.limit.is_none();
        if kinds.len() > 3 && !plain {
            continue;
        }
        let q = HistoryQuery { current_project: Some(dirs[0].display().to_string()), ..q };
        c.transitions += 1;
        let mut want: Vec<&str> = all.iter().rev().filter(|e| wanted(e, &q)).map(|e| e.entry.as_str()).collect();
        want.truncate(q.limit.unwrap_or(usize::MAX));
        let r = catch(|| h.search_entries(&q));
        let got = r.map(|v| v.iter().map(|e| e.entry.clone()).collect::<Vec<_>>());
        c.eval(("search", kinds, qi), !want.is_empty());
        if got.as_deref() != Ok(&want.iter().map(|s| s.to_string()).collect::<Vec<_>>()[..]) {
            c.violation(format!("search:{kinds:?}:{q:?}"), format!("searching {all:?} for {q:?} gives {got:?}, should be {want:?}"), json!({"kinds": kinds}));
        }
    }
    c.state(("search", kinds));
    c.traces += 1;
}

fn run(c: &mut Ctx) {
    for d in ["p1", "p2"] {
        std::fs::create_dir_all(c.scratch.join("work").join(d)).unwrap();
    }
    if let Some(o) = c.only.clone() {
        if o["kinds"].is_array() {
            unsafe { std::env::set_var("PATH", "/nonexistent") };
            search_history(c, &serde_json::from_value::<Vec<usize>>(o["kinds"].clone()).unwrap());
        } else {
            typed(c);
        }
        return;
    }
    typed(c);
    unsafe { std::env::set_var("PATH", "/nonexistent") };
    for l in 0..=(if c.thorough() { 6 } else { 5 }) {
        sequences(KINDS.len() + 1, l, |s| {
            if c.mine() {
                c.begin(&format!("search {s:?}"));
                search_history(c, s);
            }
        });
    }
}
