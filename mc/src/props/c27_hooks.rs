//! C27: hooks. Every list of hook functions up to a length (recorders and functions that fail in
//! different ways), every list of commands up to a length over command kinds and operators, and
//! every short argument text over the characters that mean something to Lisp, run by the real
//! shell; what the hooks were given and when is compared with a model of the command list.
use crate::bb::*;
use crate::common::*;
use serde_json::json;

pub fn spec() -> Spec {
    Spec {
        id: "C27",
        level: "model_checking",
        rule: "all lists of up to three hook functions out of two that record and seven that fail (unknown name, no value, unbounded recursion, too many arguments, not a function, endless text, leaves early), for pre-exec, post-exec, on-chdir and command-not-found at once; all command lists of one to three commands over 14 kinds and ; && || & ; all argument texts to a length over quotes, parentheses, backslash, comma, semicolon, dollar, percent, a wide letter; unknown names of the same letters; all walks over projects; at a terminal, sequences of lines, empty lines, interrupted lines and completions. Non-trivial: a hook fails, a command is skipped or the text holds a special character.",
        assumptions: &["hooks record by starting a process", "a command in the background has no post-exec call (it has not ended)", "hook functions that never return are not covered"],
        shards: 16,
        hang_s: 60,
        run,
    }
}

const DEFS: &str = r#"
(defun pre-a (c) (command "rec" "H" "a" "pre" c))
(defun pre-b (c) (command "rec" "H" "b" "pre" c))
(defun post-a (c n) (command "rec" "H" "a" "post" c (+ "" n)))
(defun post-b (c n) (command "rec" "H" "b" "post" c (+ "" n)))
(defun dir-a () (command "rec" "H" "a" "dir"))
(defun dir-b () (command "rec" "H" "b" "dir"))
(defun nf-a (c) (command "rec" "H" "a" "nf" c))
(defun nf-b (c) (command "rec" "H" "b" "nf" c))
(defun bad-name (...) (undefined-name))
(defun bad-value (...) (/ 1 0))
(defun bad-deep (...) (+ 1 (bad-deep)))
(defun bad-args (p q r s u) (list p q r s u))
(defun bad-run (...) (command "no-such-program-here" "x"))
(defun bad-kind (...) (car 5))
(alias "al" "rec via alias")
(fn shout (x) (command "rec" "lisp" x))
"#;
/// Functions of a list: a and b record.
const FNS: &[&str] = &["a", "b", "bad-name", "bad-value", "bad-deep", "bad-args", "bad-run", "bad-kind", "5"];

fn config(l: &[usize]) -> String {
    let mut s = DEFS.to_string();
    // the newest is called first
    for &i in l.iter().rev() {
        for (hook, p) in [("pre-exec", "pre"), ("post-exec", "post"), ("on-chdir", "dir"), ("command-not-found", "nf")] {
            let f = match FNS[i] {
                n @ ("a" | "b") => format!("'{p}-{n}"),
                "5" => "5".into(),
                n => format!("'{n}"),
            };
            s += &format!("(add-hook '{hook}-hooks {f})\n");
        }
    }
    s
}

/// A command: how it is written, what it runs (stub and arguments), its status, whether it changes directory.
struct Cmd {
    text: &'static str,
    shown: &'static str,
    runs: &'static [&'static str],
    code: i32,
    dir: bool,
    bg: bool,
}
const fn c(text: &'static str, runs: &'static [&'static str], code: i32) -> Cmd {
    Cmd { text, shown: text, runs, code, dir: false, bg: false }
}
const CMDS: &[Cmd] = &[
    c("rec one", &["rec one"], 0),
    c("ex 3", &["ex 3"], 3),
    c("rec \"x (y) \\\" z\" 'q; (r)'", &["rec x (y) \" z|q; (r)"], 0),
    Cmd { shown: "rec via alias 'more'", ..c("al 'more'", &["rec via|alias|more"], 0) },
    c("ex 4 | rec p", &["ex 4", "rec p"], 0),
    c("rec q | ex 5", &["rec q", "ex 5"], 5),
    c("ex 6 |>", &["ex 6"], 6),
    c("ex 7 |: (+ 1 2)", &["ex 7"], 7),
    c("src k out |: (+ \"<\" $_)", &["src k|out"], 0),
    Cmd { dir: true, ..c("cd sub", &[], 0) },
    c("cd none", &[], 1),
    c("true", &[], 0),
    c("shout hi", &["rec lisp|hi"], 0),
    Cmd { bg: true, ..c("ex 8", &["ex 8"], 0) },
    c("rec > out.txt w", &["rec w"], 0),
    c("kil 9", &["kil 9"], 1),
];
const OPS: &[&str] = &[";", "&&", "||"];

fn flat(e: &serde_json::Value) -> String {
    let a: Vec<String> = e["argv"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("?").to_string()).collect();
    format!("{} {}", e["cmd"].as_str().unwrap_or(""), a.join("|"))
}

/// What is expected in the log: calls of hooks one after the other, and between them what a command runs in any order.
#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Hook(String),
    Runs(Vec<String>),
    /// ends whenever it likes
    Later(Vec<String>),
}

fn calls(l: &[usize], what: &str) -> Vec<Ev> {
    l.iter().filter(|i| **i < 2).map(|i| Ev::Hook(format!("rec H|{}|{what}", FNS[*i]))).collect()
}

fn matches(log: &[serde_json::Value], want: &[Ev]) -> Result<(), String> {
    let mut later: Vec<String> = want.iter().flat_map(|e| if let Ev::Later(v) = e { v.clone() } else { vec![] }).collect();
    let mut got: Vec<String> = vec![];
    for e in log {
        let f = flat(e);
        match later.iter().position(|l| *l == f) {
            Some(i) => {
                later.remove(i);
            }
            None => got.push(f),
        }
    }
    // texts of commands keep the blanks around them
    let norm = |s: &str| s.split('|').map(str::trim).collect::<Vec<_>>().join("|");
    let mut at = 0;
    for e in want {
        match e {
            Ev::Hook(h) => {
                if got.get(at).map(|g| norm(g)) != Some(norm(h)) {
                    return Err(format!("expected the call {h:?}, there is {:?}", got.get(at)));
                }
                at += 1;
            }
            Ev::Runs(r) => {
                let mut r = r.clone();
                r.sort();
                let mut g: Vec<String> = got[at.min(got.len())..(at + r.len()).min(got.len())].to_vec();
                g.sort();
                if r != g {
                    return Err(format!("expected to run {r:?}, there is {g:?}"));
                }
                at += r.len();
            }
            Ev::Later(_) => {}
        }
    }
    if at < got.len() {
        return Err(format!("and more: {:?}", &got[at..]));
    }
    if !later.is_empty() {
        return Err(format!("not run: {later:?}"));
    }
    Ok(())
}

/// The commands with the operators between them, as a line, what it does, its status.
fn model(l: &[usize], cmds: &[usize], ops: &[usize]) -> (String, Vec<Ev>, i32, bool) {
    let mut line = String::new();
    let mut want = vec![];
    let (mut code, mut run, mut skipped, mut inside) = (0, true, false, false);
    for (n, &i) in cmds.iter().enumerate() {
        let x = &CMDS[i];
        if n > 0 {
            if CMDS[cmds[n - 1]].bg {
                line += " & ";
                run = true;
            } else {
                line += &format!(" {} ", OPS[ops[n - 1]]);
                run = match OPS[ops[n - 1]] {
                    "&&" => code == 0,
                    "||" => code != 0,
                    _ => true,
                };
            }
        }
        line += x.text;
        if n + 1 == cmds.len() && x.bg {
            line += " &";
        }
        if !run {
            skipped = true;
            continue;
        }
        let shown = if x.bg { format!("{} &", x.shown) } else { x.shown.to_string() };
        want.extend(calls(l, &format!("pre|{shown}")));
        let runs = x.runs.iter().map(|s| s.to_string()).collect::<Vec<String>>();
        code = x.code;
        // there is one such directory only
        let moved = x.dir && !inside;
        if x.dir && inside {
            code = 1;
        }
        if moved {
            want.extend(calls(l, "dir"));
            inside = true;
        }
        let mut runs: Vec<String> = runs;
        if x.bg {
            want.push(Ev::Later(runs));
        } else {
            // a pipeline has ended when its last stage has
            if x.text.contains(" | ") {
                want.push(Ev::Later(runs.drain(..runs.len() - 1).collect()));
            }
            want.push(Ev::Runs(runs));
            want.extend(calls(l, &format!("post|{shown}|{code}")));
        }
    }
    (line, want, code, skipped)
}

fn one(ctx: &mut Ctx, sh: &mut Sh, l: &[usize], cmds: &[usize], ops: &[usize]) {
    let (line, want, code, skipped) = model(l, cmds, ops);
    sh.config(&config(l));
    let o = sh.run(&line);
    let mut why = vec![];
    if let Err(e) = matches(&o.log, &want) {
        why.push(e);
    }
    if o.code != Some(code) {
        why.push(format!("status {:?}, not {code}", o.code));
    }
    ctx.transitions += cmds.len() as u64;
    ctx.traces += 1;
    ctx.state((l.to_vec(), o.log.len()));
    ctx.eval(&format!("{l:?}:{cmds:?}"), skipped || l.iter().any(|i| *i > 1));
    if !why.is_empty() {
        let names: Vec<&str> = l.iter().map(|i| FNS[*i]).collect();
        ctx.violation(format!("line {names:?} {line}"), format!("hooks {names:?}, `{line}`: {}", why.join("; ")), json!({"l": l, "cmds": cmds, "ops": ops}));
    }
}

const LETTERS: &[&str] = &["\"", "(", ")", "\\", ",", ";", "$x", "é", "a", "%s", " ", "`", "nil"];

fn words(ctx: &mut Ctx, sh: &mut Sh, t: &str) {
    sh.config(&config(&[0]));
    let mut why = vec![];
    let line = format!("rec '{t}'");
    let o = sh.run(&line);
    let seen: Vec<Vec<String>> = o.log.iter().map(|e| e["argv"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).collect();
    let h = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let want = vec![h(&["H", "a", "pre", &line]), h(&[t]), h(&["H", "a", "post", &line, "0"])];
    if seen != want {
        why.push(format!("`{line}` led to {seen:?}"));
    }
    if !t.trim().is_empty() {
        // a name nothing has
        let line = format!("'zq{t}' x");
        let o = sh.run(&line);
        let seen: Vec<Vec<String>> = o.log.iter().map(|e| e["argv"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).collect();
        if seen != vec![h(&["H", "a", "nf", &format!("zq{t}")])] || o.code == Some(0) {
            why.push(format!("`{line}` led to {seen:?}, status {:?}", o.code));
        }
    }
    ctx.transitions += 2;
    ctx.traces += 2;
    ctx.eval(&format!("word:{t}"), true);
    if !why.is_empty() {
        ctx.violation(format!("word {t:?}"), why.join("; "), json!({"word": t}));
    }
}

/// Walks over directories of which some belong to projects.
const DIRS: &[(&str, &str)] = &[("p1", "one"), ("p1/in", "one"), ("p1/in/p2", "two \"x"), ("p3", "(three)"), ("out", "")];
fn projects(ctx: &mut Ctx, sh: &mut Sh, w: &[usize]) {
    let root = sh.dir.canonicalize().unwrap();
    for (d, _) in DIRS {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    let list: Vec<_> = [("p1", "one"), ("p1/in/p2", "two \"x"), ("p3", "(three)")].iter().map(|(d, n)| json!({"name": n, "path": root.join(d), "description": null, "created_at": 1, "last_accessed": 1, "tags": []})).collect();
    sh.config(&(DEFS.to_string() + "(define *on-project-switch-hooks* (list bad-name (lambda (p) (command \"rec\" \"H\" \"p\" p)) bad-value))\n(add-hook 'on-chdir-hooks 'bad-name)\n(add-hook 'on-chdir-hooks 'dir-a)\n"));
    std::fs::write(sh.home.join(".config/dsh/projects.json"), serde_json::to_string(&list).unwrap()).unwrap();
    let line = w.iter().map(|i| format!("cd {}", root.join(DIRS[*i].0).display())).collect::<Vec<_>>().join(" ; ");
    let o = sh.run(&line);
    let _ = std::fs::remove_file(sh.home.join(".config/dsh/projects.json"));
    let mut want = vec![];
    let mut now = "";
    for i in w {
        want.push("rec H|a|dir".to_string());
        if DIRS[*i].1 != now {
            now = DIRS[*i].1;
            if !now.is_empty() {
                want.push(format!("rec H|p|{now}"));
            }
        }
    }
    let got: Vec<String> = o.log.iter().map(flat).collect();
    ctx.transitions += w.len() as u64;
    ctx.traces += 1;
    ctx.state(now);
    ctx.eval(&format!("walk:{}", got.len()), true);
    if got != want {
        ctx.violation(format!("walk {w:?}"), format!("`{line}`: the hooks were called {got:?}, not {want:?}"), json!({"walk": w}));
    }
}

/// At a terminal: a prompt after each thing done, and completion.
const KEYS: &[&str] = &["rec k\r", "ex 3\r", "\r", "abc\x03", "rec (\"a\t\x15", "cd sub; cd ..\r", "zqx 'y'\r", "rec a; ex 2\r"];
fn typed(ctx: &mut Ctx, sh: &mut Sh, w: &[usize]) {
    sh.config(&format!(
        "{DEFS}(add-hook 'pre-prompt-hooks (lambda () (command \"rec\" \"H\" \"prompt\")))\n(add-hook 'pre-prompt-hooks 'bad-value)\n(add-hook 'completion-hooks (lambda (i n) (command \"rec\" \"H\" \"tab\" i (+ \"\" n))))\n(add-hook 'completion-hooks 'bad-name)\n{}",
        config(&[2, 0, 3]).strip_prefix(DEFS).unwrap()
    ));
    let mut t = sh.tty();
    let fail = |ctx: &mut Ctx, t: &Tty, why: String| {
        let l: Vec<String> = t.log().iter().map(flat).collect();
        ctx.violation(format!("keys {w:?}"), format!("keys {:?}: {why}; the log is {l:?}", w.iter().map(|i| KEYS[*i]).collect::<Vec<_>>()), json!({"keys": w}));
    };
    if !t.ready() {
        return fail(ctx, &t, "no prompt".into());
    }
    // what is there before the first key
    t.wait_log(|l| l.iter().any(|e| flat(e) == "rec H|prompt"));
    let mut want: Vec<String> = t.log().iter().map(flat).collect();
    // the shell starts with a change to the directory it is in
    want.retain(|e| !e.contains("|cd .") && e != "rec H|a|dir");
    if want != ["rec H|prompt"] {
        let e = format!("before the first key: {want:?}");
        return fail(ctx, &t, e);
    }
    let start = t.log().len() - 1;
    for i in w {
        let k = KEYS[*i];
        let len = want.len();
        let mut add = |v: &[&str]| want.extend(v.iter().map(|s| s.to_string()));
        t.send(k);
        if k.contains('\t') {
            add(&["rec H|tab|rec (\"a|7"]);
            t.wait_log(|l| l.last().is_some_and(|e| flat(e).contains("H|tab")));
            std::thread::sleep(std::time::Duration::from_millis(50));
            continue;
        }
        if k == "\r" {
            // an empty line ends nothing
            let n = start + len + 1;
            t.wait_log(|l| l.len() >= n);
        } else if t.done().is_none() {
            return fail(ctx, &t, format!("no prompt after {k:?}"));
        }
        match k {
            "rec k\r" => add(&["rec H|a|pre|rec k", "rec k", "rec H|a|post|rec k|0"]),
            "ex 3\r" => add(&["rec H|a|pre|ex 3", "ex 3", "rec H|a|post|ex 3|3"]),
            "cd sub; cd ..\r" => add(&["rec H|a|pre|cd sub", "rec H|a|dir", "rec H|a|post|cd sub|0", "rec H|a|pre|cd ..", "rec H|a|dir", "rec H|a|post|cd ..|0"]),
            "zqx 'y'\r" => add(&["rec H|a|nf|zqx"]),
            "rec a; ex 2\r" => add(&["rec H|a|pre|rec a", "rec a", "rec H|a|post|rec a|0", "rec H|a|pre|ex 2", "ex 2", "rec H|a|post|ex 2|2"]),
            _ => {}
        }
        add(&["rec H|prompt"]);
    }
    let n = want.len();
    t.wait_log(|l| l.len() >= start + n);
    std::thread::sleep(std::time::Duration::from_millis(60));
    // texts of commands keep the blanks around them
    let got: Vec<String> = t.log().iter().skip(start).map(|e| flat(e).split('|').map(str::trim).collect::<Vec<_>>().join("|")).collect();
    ctx.transitions += w.len() as u64;
    ctx.traces += 1;
    ctx.eval(&format!("keys:{}", got.len()), true);
    if got != want {
        fail(ctx, &t, format!("expected {want:?}"));
    }
}

fn run(ctx: &mut Ctx) {
    let mut sh = Sh::new(&ctx.scratch);
    std::fs::create_dir_all(sh.dir.join("sub")).unwrap();
    let nums = |v: &serde_json::Value| v.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
    if let Some(o) = ctx.only.clone() {
        if o["cmds"].is_array() {
            one(ctx, &mut sh, &nums(&o["l"]), &nums(&o["cmds"]), &nums(&o["ops"]));
        } else if let Some(t) = o["word"].as_str() {
            words(ctx, &mut sh, t);
        } else if o["walk"].is_array() {
            projects(ctx, &mut sh, &nums(&o["walk"]));
        } else {
            typed(ctx, &mut sh, &nums(&o["keys"]));
        }
        return;
    }
    // every list of functions with a list of commands that succeed, fail, are skipped and change directory
    for len in 0..=3 {
        sequences(FNS.len(), len, |l| {
            if !ctx.mine() {
                return;
            }
            ctx.begin(&format!("hooks {l:?}"));
            one(ctx, &mut sh, l, &[1, 9, 0], &[2, 1]);
        });
    }
    // every list of commands, with two recorders around one that fails
    for l in [&[0usize, 3, 1][..], &[2, 0]] {
        let max = if ctx.thorough() { 3 } else { 2 };
        for len in 1..=max {
            let some: Vec<usize> = (0..CMDS.len()).filter(|i| len < 3 || ![2, 4, 10, 14].contains(i)).collect();
            sequences(some.len(), len, |s| {
                let cmds: Vec<usize> = s.iter().map(|i| some[*i]).collect();
                sequences(OPS.len(), len - 1, |ops| {
                    // a command in the background is followed by its own operator
                    if ops.iter().enumerate().any(|(n, o)| CMDS[cmds[n]].bg && *o > 0) {
                        return;
                    }
                    // what follows these on a line belongs to them
                    if l.len() == 2 && len == 2 && !ctx.thorough() && ops[0] != 1 {
                        return;
                    }
                    if !ctx.mine() {
                        return;
                    }
                    ctx.begin(&format!("line {l:?} {cmds:?} {ops:?}"));
                    one(ctx, &mut sh, l, &cmds, ops);
                });
            });
        }
    }
    let deep = if ctx.thorough() { 3 } else { 2 };
    for len in 1..=deep {
        sequences(LETTERS.len(), len, |s| {
            if !ctx.mine() {
                return;
            }
            let t: String = s.iter().map(|&i| LETTERS[i]).collect();
            if t.ends_with('\\') || t.contains("\\\\") {
                return; // it would escape the quote or itself
            }
            ctx.begin(&format!("word {t:?}"));
            words(ctx, &mut sh, &t);
        });
    }
    for len in 1..=(if ctx.thorough() { 4 } else { 3 }) {
        sequences(DIRS.len(), len, |w| {
            if !ctx.mine() {
                return;
            }
            ctx.begin(&format!("walk {w:?}"));
            projects(ctx, &mut sh, w);
        });
    }
    for len in 1..=(if ctx.thorough() { 3 } else { 2 }) {
        sequences(KEYS.len(), len, |w| {
            if !ctx.mine() {
                return;
            }
            ctx.begin(&format!("keys {w:?}"));
            typed(ctx, &mut sh, w);
        });
    }
}
