//! C06: what commands inherit and how they are found. Every history of variable, export, PATH and
//! file operations up to a depth, typed at the real shell; after it real child processes report
//! the environment they were given and which program was run.
use super::super::bb::Sh;
use crate::common::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;

pub fn spec() -> Spec {
    Spec {
        id: "C06",
        level: "model_checking",
        rule: "every sequence of set / set -x / export operations up to the depth over two variables (one inherited, one not), and every sequence of PATH and file operations up to the depth over two directories, typed at the real shell and compared with a model of variables, exports and search path by what child processes then see",
        assumptions: &["a program in the session reports the environment it was given; the shell reads its lines from a file"],
        shards: 16,
        hang_s: 60,
        run,
    }
}

#[derive(Default, Clone, Debug, PartialEq, Eq, Hash)]
struct World {
    /// what the shell was started with, changed by `set -x`
    env: BTreeMap<String, String>,
    vars: BTreeMap<String, String>,
    exported: BTreeSet<String>,
}

impl World {
    fn child(&self) -> BTreeMap<String, String> {
        let mut e = self.env.clone();
        for k in &self.exported {
            if let Some(v) = self.vars.get(k) {
                e.insert(k.clone(), v.clone());
            }
        }
        e
    }
    fn dollar(&self, k: &str) -> Option<&String> {
        self.vars.get(k).or_else(|| self.env.get(k))
    }
    fn set(&mut self, k: &str, v: &str) {
        self.vars.insert(k.into(), v.into());
    }
    fn set_x(&mut self, k: &str, v: &str) {
        self.env.insert(k.into(), v.into());
        if self.exported.contains(k) && self.vars.contains_key(k) {
            self.set(k, v);
        }
    }
    fn export(&mut self, k: &str, v: Option<&str>) {
        if let Some(v) = v {
            self.set(k, v);
        }
        self.exported.insert(k.into());
    }
}

#[derive(Clone, Debug)]
enum Op {
    Set(&'static str, &'static str),
    SetX(&'static str, &'static str),
    Export(Vec<(&'static str, Option<&'static str>)>),
    /// something that changes nothing
    Nop(&'static str),
}
use Op::*;

fn quote(v: &str) -> String {
    if v.is_empty() || v.contains(' ') { format!("\"{v}\"") } else { v.to_string() }
}

fn text(o: &Op) -> String {
    match o {
        Set(k, v) => format!("set {k} {}", quote(v)),
        SetX(k, v) => format!("set -x {k} {}", quote(v)),
        Export(l) => {
            let mut t = "export".to_string();
            for (k, v) in l {
                t += &match v {
                    Some(v) if v.contains(' ') => format!(" '{k}={v}'"),
                    Some(v) => format!(" {k}={v}"),
                    None => format!(" {k}"),
                };
            }
            t
        }
        Nop(t) => t.to_string(),
    }
}

fn apply(w: &mut World, o: &Op) {
    match o {
        Set(k, v) => w.set(k, v),
        SetX(k, v) => w.set_x(k, v),
        Export(l) => l.iter().for_each(|(k, v)| w.export(k, *v)),
        Nop(_) => {}
    }
}

fn vars(c: &mut Ctx, sh: &mut Sh) {
    let mut ops = vec![];
    for k in ["A", "B"] {
        ops.extend([Set(k, "1"), Set(k, ""), SetX(k, "2"), SetX(k, ""), Export(vec![(k, Some("3"))]), Export(vec![(k, Some(""))]), Export(vec![(k, None)])]);
    }
    ops.extend([
        Export(vec![("A", Some("4")), ("B", Some("p=q"))]),
        Export(vec![("B", None), ("A", Some("p q"))]),
        SetX("B", "x=y z"),
        Set("AB", "5"),
        Nop("set C"),
        Nop("envp Q | flt b"),
        Nop("rec (envp Q)"),
    ]);
    let depth = if c.thorough() { 4 } else { 3 };
    for len in 0..=depth {
        let n = if len == depth { 14 } else { ops.len() };
        sequences(n, len, |s| {
            if !c.mine() {
                return;
            }
            let lines: Vec<String> = s.iter().map(|&i| text(&ops[i])).collect();
            let key = lines.join("; ");
            if let Some(r) = &c.only {
                if r["ops"] != json!(key) {
                    return;
                }
            }
            c.begin(&key);
            let mut w = World::default();
            w.env.insert("A".into(), "sys".into());
            sh.env = vec![("A".into(), "sys".into())];
            for &i in s {
                apply(&mut w, &ops[i]);
                c.transitions += 1;
            }
            c.state(&w);
            let mut all: Vec<&str> = lines.iter().map(|x| x.as_str()).collect();
            // seen by a command, by the last stage of a pipeline, inside a substitution, in a list
            let probes = ["envp A B", "flt x | envp A B", "rec (envp A B)", "ex 1 && ex 0 ; envp A B", "rec $A", "rec $B"];
            all.extend(probes);
            let o = sh.session(&all);
            c.eval(("vars", &key), len > 0);
            c.traces += 1;
            let want: BTreeMap<String, String> = w.child().into_iter().filter(|(k, _)| k.starts_with('A') || k.starts_with('B')).collect();
            // the probes' reports are the last ones
            let seen: Vec<BTreeMap<String, String>> =
                o.log.iter().filter(|l| l["cmd"] == "envp" && l["argv"] == json!(["A", "B"])).map(|l| serde_json::from_value(l["env"].clone()).unwrap_or_default()).collect();
            let mut bad = None;
            if seen.len() != 4 || seen.iter().any(|e| *e != want) {
                bad = Some(format!("child processes saw {seen:?}, expected {want:?} four times"));
            }
            let recs: Vec<Vec<String>> = o.cmds().into_iter().filter(|x| x.0 == "rec").map(|x| x.1).rev().take(2).collect();
            for (k, got) in [("B", recs.first()), ("A", recs.get(1))] {
                let w1 = w.dollar(k).cloned().unwrap_or(format!("${k}"));
                if !w1.is_empty() && got != Some(&vec![w1.clone()]) {
                    bad = Some(format!("${k} expanded to {got:?}, expected [{w1:?}]"));
                }
            }
            if let Some(b) = bad {
                c.violation(format!("vars:{key}"), format!("after `{key}`: {b}; exit {:?}/{:?}{}; {}", o.code, o.signal, if o.timed_out { ", hung" } else { "" }, o.stderr.chars().take(200).collect::<String>()), json!({"ops": key}));
            } else if len == 2 {
                c.sample(json!({"ops": key, "child": want}));
            }
        });
    }
}

/// The terminal type: a value like any other, except that a missing or empty one gets a default.
fn terminal(c: &mut Ctx, sh: &mut Sh) {
    let ops = [
        Set("TERM", "vt1"), Set("TERM", ""), SetX("TERM", "vt2"), SetX("TERM", ""), Export(vec![("TERM", Some("vt3"))]), Export(vec![("TERM", Some(""))]), Export(vec![("TERM", None)]),
        Export(vec![("LS_COLORS", Some("x"))]),
    ];
    let depth = if c.thorough() { 4 } else { 3 };
    for start in ["-", "", "vt0"] {
        for len in 0..=depth {
            sequences(ops.len(), len, |s| {
                if !c.mine() {
                    return;
                }
                let lines: Vec<String> = s.iter().map(|&i| text(&ops[i])).collect();
                let key = format!("{start}: {}", lines.join("; "));
                if let Some(r) = &c.only {
                    if r["ops"] != json!(key) {
                        return;
                    }
                }
                c.begin(&key);
                let mut w = World::default();
                if start != "-" {
                    w.env.insert("TERM".into(), start.into());
                }
                sh.env = vec![("TERM".into(), if start == "-" { "\0".to_string() } else { start.to_string() })];
                for &i in s {
                    apply(&mut w, &ops[i]);
                    c.transitions += 1;
                }
                c.state(&w);
                let mut want = w.child();
                if want.get("TERM").is_none_or(|t| t.is_empty()) {
                    want.insert("TERM".into(), "xterm-256color".into());
                }
                let mut all: Vec<&str> = lines.iter().map(|x| x.as_str()).collect();
                all.extend(["envp TERM LS_COLORS", "flt x | envp TERM LS_COLORS"]);
                let o = sh.session(&all);
                c.eval(("terminal", &key), len > 0);
                c.traces += 1;
                let seen: Vec<BTreeMap<String, String>> = o.log.iter().filter(|l| l["cmd"] == "envp").map(|l| serde_json::from_value(l["env"].clone()).unwrap_or_default()).collect();
                if seen.len() != 2 || seen.iter().any(|e| *e != want) {
                    c.violation(format!("terminal:{key}"), format!("after `{key}`: child processes saw {seen:?}, expected {want:?}"), json!({"ops": key}));
                }
            });
        }
    }
    sh.env.clear();
}

/// What a started shell passes on: everything it was given, nothing else.
fn inherited(c: &mut Ctx, sh: &mut Sh) {
    let vals = ["", "x", "a b", "a=b", "=", "あ😀", "l1\nl2", "\t", "'\"\\$`*", "%s", &"x".repeat(5000)];
    let keys = ["A", "a_b", "LS_COLORS", "EDITOR", "Z_EXCLUDE", "PROMPT", "LC_X", "weird-key.1", "SHELL", "_"];
    let config = [None, Some("(setenv \"CFG\" \"from config\")"), Some("(setenv \"A\" \"cfg\")"), Some("(vset \"V\" \"v\")")];
    for term in [Some("xterm"), Some("dumb"), Some(""), None] {
        for k in keys {
            for v in vals {
                if !c.mine() {
                    continue;
                }
                if !c.thorough() && term != Some("xterm") && k != "A" {
                    continue;
                }
                sh.env = vec![(k.to_string(), v.to_string()), ("OTHER".into(), "o".into()), ("TERM".into(), term.unwrap_or("-").to_string())];
                whole(c, sh, term, k, v, None);
            }
        }
    }
    for cfg in config {
        for v in ["x", "", "あ"] {
            if !c.mine() {
                continue;
            }
            sh.config(cfg.unwrap_or(""));
            sh.env = vec![("A".to_string(), v.to_string()), ("OTHER".into(), "o".into()), ("TERM".into(), "xterm".into())];
            whole(c, sh, Some("xterm"), "A", v, cfg);
            sh.config("");
        }
    }
    sh.env.clear();
}

fn whole(c: &mut Ctx, sh: &mut Sh, term: Option<&str>, k: &str, v: &str, cfg: Option<&str>) {
    let id = format!("TERM={term:?} {k}={:?} {cfg:?}", v.chars().take(20).collect::<String>());
    c.begin(&id);
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for (a, b) in [
        ("PATH", format!("{}:/usr/bin:/bin", sh.bin.display())), ("HOME", sh.home.display().to_string()), ("MCLOG", sh.log.display().to_string()), ("LANG", "C.UTF-8".into()),
        ("TMPDIR", sh.home.display().to_string()), ("PWD", sh.dir.display().to_string()), ("USER", "mc".into()), ("GIT_CEILING_DIRECTORIES", "/".into()),
    ] {
        want.insert(a.into(), b);
    }
    want.insert("OTHER".into(), "o".into());
    want.insert(k.into(), v.into());
    want.insert("TERM".into(), match term { None | Some("") => "xterm-256color".into(), Some(t) => t.to_string() });
    match cfg {
        Some(x) if x.contains("CFG") => {
            want.insert("CFG".into(), "from config".into());
        }
        Some(x) if x.contains("\"A\"") => {
            want.insert("A".into(), "cfg".into());
        }
        _ => {}
    }
    if term.is_none() {
        sh.env.retain(|x| x.0 != "TERM");
        sh.env.push(("TERM".into(), "\0".into()));
    }
    let o = sh.run("envp \"\" ; flt x | envp \"\"");
    c.eval(("whole", &id), true);
    c.transitions += 2;
    c.state((&want, 0));
    let seen: Vec<BTreeMap<String, String>> = o.log.iter().filter(|l| l["cmd"] == "envp").map(|l| serde_json::from_value(l["env"].clone()).unwrap_or_default()).collect();
    if seen.len() != 2 || seen.iter().any(|e| *e != want) {
        let diff: Vec<_> = seen.iter().map(|e| e.iter().filter(|(k, v)| want.get(*k) != Some(v)).chain(want.iter().filter(|(k, v)| e.get(*k) != Some(v))).collect::<Vec<_>>()).collect();
        c.violation(format!("whole:{id}"), format!("started with {id}: children saw other values for {diff:?} ({} reports)", seen.len()), json!({"whole": id}));
    }
}

/// Which program a name runs.
fn lookup(c: &mut Ctx, sh: &mut Sh) {
    let root = sh.home.join("pt");
    let (d1, d2) = (root.join("d1"), root.join("d2"));
    let bin = sh.bin.display().to_string();
    let src = root.join("src");
    let rec = sh.bin.join("rec").display().to_string();
    let script = |tag: &str| format!("#!/bin/sh\nexec {rec} {tag} \"$PATH\"\n");
    let (p1, p2) = (d1.display().to_string(), d2.display().to_string());
    let tail = format!("{bin}:/bin");
    #[derive(Clone, Debug, PartialEq)]
    enum P {
        Path(&'static str, Vec<usize>), // how, directories put first
        Add(usize),
        Shadow,
        ExportOnly,
        Put(usize),
        Remove(usize),
        NoExec(usize),
        Dir(usize),
        Run,
    }
    let ops = vec![
        P::Path("set -x PATH ", vec![1]), P::Path("set -x PATH ", vec![2, 1]), P::Path("export PATH=", vec![2]), P::Path("export PATH=", vec![]), P::Add(1), P::Add(2), P::Shadow, P::ExportOnly, P::Put(1), P::Put(2), P::Remove(1),
        P::Remove(2), P::NoExec(1), P::Dir(2), P::Run,
    ];
    let dirs = [String::new(), p1.clone(), p2.clone()];
    let depth = if c.thorough() { 4 } else { 3 };
    for start in 0..2 {
        for len in 0..=depth {
            sequences(ops.len(), len, |s| {
                if !c.mine() {
                    return;
                }
                if len >= 3 && !s.iter().any(|&i| matches!(ops[i], P::Run)) {
                    return;
                }
                let mut lines = vec![];
                // model: the directories before the tail, what is in d1 and d2, a shell variable PATH
                let mut front: Vec<usize> = if start == 0 { vec![] } else { vec![1, 2] };
                let mut files = [' ', if start == 0 { ' ' } else { 'x' }, ' '];
                let mut shadow = false;
                let mut exported = false;
                let mut broken = false;
                let mut want: Vec<Option<(usize, String)>> = vec![];
                let pathtext = |f: &[usize]| f.iter().map(|&i| dirs[i].clone()).chain([tail.clone()]).collect::<Vec<_>>().join(":");
                let found = |front: &[usize], files: &[char; 3]| front.iter().find(|&&i| files[i] == 'x').copied();
                for &i in s {
                    match &ops[i] {
                        P::Path(how, f) => {
                            // `set -x` under a shell variable that is not exported leaves two values
                            if shadow && !exported && how.starts_with("set") {
                                broken = true;
                            }
                            front = f.clone();
                            lines.push(format!("{how}{}", pathtext(f)));
                            if how.starts_with("export") {
                                shadow = true;
                                exported = true;
                            }
                        }
                        P::Add(d) => {
                            if shadow && !exported {
                                broken = true;
                            }
                            front.insert(0, *d);
                            lines.push(format!("add_path {}", dirs[*d]));
                        }
                        P::Shadow => {
                            // a shell variable of that name, with the value it has anyway
                            shadow = true;
                            lines.push(format!("set PATH {}", pathtext(&front)));
                        }
                        P::ExportOnly => {
                            exported = true;
                            lines.push("export PATH".to_string());
                        }
                        P::Put(d) => {
                            if files[*d] == 'd' {
                                broken = true;
                            }
                            files[*d] = 'x';
                            lines.push(format!("/bin/cp -p {} {}/foo", src.join(format!("{d}")).display(), dirs[*d]));
                        }
                        P::Remove(d) => {
                            if files[*d] == 'd' {
                                broken = true;
                            }
                            files[*d] = ' ';
                            lines.push(format!("/usr/bin/unlink {}/foo", dirs[*d]));
                        }
                        P::NoExec(d) => {
                            if files[*d] == 'x' {
                                files[*d] = 'n';
                            }
                            lines.push(format!("/bin/chmod -f a-x {}/foo", dirs[*d]));
                        }
                        P::Dir(d) => {
                            if files[*d] == ' ' {
                                files[*d] = 'd';
                            }
                            lines.push(format!("/bin/mkdir -p {}/foo", dirs[*d]));
                        }
                        P::Run => {
                            lines.push("foo".into());
                            if let Some(d) = found(&front, &files) {
                                want.push(Some((d, pathtext(&front))));
                            }
                        }
                    }
                }
                if broken {
                    return;
                }
                let key = format!("{start} {}", s.iter().map(|&i| format!("{:?}", ops[i])).collect::<Vec<_>>().join(", "));
                if let Some(r) = &c.only {
                    if r["ops"] != json!(key) {
                        return;
                    }
                }
                c.begin(&key);
                lines.push("foo".into());
                if let Some(d) = found(&front, &files) {
                    want.push(Some((d, pathtext(&front))));
                }
                lines.push("envp PATH".into());
                let _ = std::fs::remove_dir_all(&root);
                for d in [&d1, &d2, &src] {
                    std::fs::create_dir_all(d).unwrap();
                }
                for d in [1, 2] {
                    std::fs::write(src.join(format!("{d}")), script(&format!("{d}"))).unwrap();
                    std::fs::set_permissions(src.join(format!("{d}")), std::fs::Permissions::from_mode(0o755)).unwrap();
                }
                if start == 1 {
                    std::fs::copy(src.join("1"), d1.join("foo")).unwrap();
                }
                sh.env = vec![("PATH".into(), pathtext(if start == 0 { &[] } else { &[1, 2] }))];
                let o = sh.session(&lines.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                c.eval(("lookup", &key), len > 0);
                c.traces += 1;
                c.transitions += len as u64;
                c.state((&front, &files, shadow, exported));
                let ran: Vec<Option<(usize, String)>> =
                    o.cmds().into_iter().filter(|x| x.0 == "rec").map(|x| Some((x.1.first()?.parse().ok()?, x.1.get(1)?.clone()))).collect();
                let child = o.log.iter().filter(|l| l["cmd"] == "envp").map(|l| l["env"]["PATH"].as_str().unwrap_or("-").to_string()).collect::<Vec<_>>();
                if ran != want || child != [pathtext(&front)] {
                    c.violation(format!("lookup:{key}"), format!("{lines:?}: ran {ran:?}, expected {want:?}; child PATH {child:?}, expected {:?}; {}", pathtext(&front), o.stderr.chars().take(200).collect::<String>()), json!({"ops": key}));
                } else if len == 2 {
                    c.sample(json!({"lines": lines, "ran": ran.len()}));
                }
            });
        }
    }
    sh.env.clear();
    // a name with a slash is a path, from wherever the shell is
    for (line, runs) in [("d1/foo", 1), ("./d1/foo", 1), ("../pt/d1/foo", 1), ("d1/../d1/foo", 1), ("d1/../../pt/d1/foo", 1), ("foo", 0), ("d2/foo", 0), ("sub/foo", 0)] {
        if !c.mine() {
            continue;
        }
        let _ = std::fs::remove_dir_all(&root);
        for d in [&d1, &d2, &d1.join("sub")] {
            std::fs::create_dir_all(d).unwrap();
        }
        for p in [d1.join("foo"), d1.join("sub/foo")] {
            std::fs::write(&p, script("1")).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        for path in [tail.clone(), format!("{p1}:{tail}")] {
            let at_path = path != tail && line == "foo";
            sh.env = vec![("PATH".into(), path.clone())];
            let cd = format!("cd {}", root.display());
            let o = sh.session(&[&cd, line]);
            let n = o.cmds().iter().filter(|x| x.0 == "rec").count();
            c.eval(("slash", line, &path), true);
            if n != runs + at_path as usize {
                c.violation(format!("slash:{line}:{}", path == tail), format!("`{line}` in {cd} with PATH {path}: {n} programs ran, expected {runs}; {}", o.stderr), json!({"line": line}));
            }
        }
        sh.env.clear();
    }
    let _ = std::fs::remove_dir_all(&root);
}

/// An environment with bytes that are not text does not keep the shell from working.
fn odd(c: &mut Ctx, sh: &Sh) {
    use std::os::unix::ffi::OsStrExt;
    for bytes in [&b"\xff"[..], b"a\x80b", b"\xed\xa0\x80"] {
        if !c.mine() {
            continue;
        }
        let _ = std::fs::remove_file(&sh.log);
        let st = std::process::Command::new(super::super::bb::target("mcdsh"))
            .args(["-c", "envp OTHER"])
            .current_dir(&sh.dir)
            .env_clear()
            .env("PATH", &sh.bin)
            .env("HOME", &sh.home)
            .env("MCLOG", &sh.log)
            .env("OTHER", "o")
            .env("ODD", std::ffi::OsStr::from_bytes(bytes))
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        let log = std::fs::read_to_string(&sh.log).unwrap_or_default();
        c.eval(("odd", bytes), true);
        if !log.contains("\"OTHER\":\"o\"") {
            c.violation(format!("odd:{bytes:?}"), format!("with ODD={bytes:?} in the environment: {st:?}, log {log:?}"), json!({"odd": bytes}));
        }
    }
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    vars(c, &mut sh);
    sh.env.clear();
    terminal(c, &mut sh);
    inherited(c, &mut sh);
    odd(c, &sh);
    lookup(c, &mut sh);
}
