//! C26: config.lisp. Every history of configuration files loaded one after the other - each a list
//! of entries up to a length, with one of the ways to fail at any position - is loaded by the real
//! loader into a real environment; everything a configuration can change is compared with a model
//! in which a file takes effect as a whole or not at all. The same through the real shell.
use crate::bb::*;
use crate::common::*;
use doge_shell::environment::Environment;
use doge_shell::lisp::{LispEngine, Symbol, Value};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub fn spec() -> Spec {
    Spec {
        id: "C26",
        level: "model_checking",
        rule: "all configuration files of up to two (three) entries of 47 kinds, loaded at start and again; all pairs (triples) of files of one entry, and of two with each of 16 ways to fail (errors while running, while reading, at any depth) at every position, after a file that was good; the same by reload in the real shell. Non-trivial: a file fails after an entry took effect, or a file is loaded again.",
        assumptions: &["values changed in place (hash tables, what closures hold) are not restored", "what programs started by a configuration do is not undone", "entries that open programs or dialogs (edit, selector) are left out"],
        shards: 16,
        hang_s: 60,
        run,
    }
}

type M = BTreeMap<String, String>;
struct Entry {
    src: &'static str,
    eff: fn(&mut M),
}
fn put(m: &mut M, k: &str, v: &str) {
    m.insert(k.into(), v.into());
}
/// A list as text: added at the front or the end.
fn list(m: &mut M, k: &str, v: &str, front: bool) {
    let old = m.get(k).cloned().unwrap_or_default();
    m.insert(k.into(), if old.is_empty() { v.into() } else if front { format!("{v}\n{old}") } else { format!("{old}\n{v}") });
}
fn once(m: &mut M, k: &str, v: &str) {
    if !m.get(k).is_some_and(|l| l.split('\n').any(|x| x == v)) {
        list(m, k, v, false);
    }
}
fn path(m: &mut M, d: &str) {
    let l: Vec<String> = m["paths"].split('\n').filter(|p| *p != d).map(String::from).collect();
    set_path(m, &format!("{d}:{}", l.join(":")));
}
fn set_path(m: &mut M, v: &str) {
    put(m, "paths", &v.replace(':', "\n"));
    put(m, "env PATH", v);
}
const E: &[Entry] = &[
    Entry { src: "(alias \"a1\" \"ls -l\")", eff: |m| put(m, "alias a1", "ls -l") },
    Entry { src: "(alias \"a1\" \"other \\\"q\\\" ; x\")", eff: |m| put(m, "alias a1", "other \"q\" ; x") },
    Entry { src: "(abbr \"g\" \"git (x)\")", eff: |m| put(m, "abbr g", "git (x)") },
    Entry { src: "(add_path \"/c26/x\")", eff: |m| path(m, "/c26/x") },
    Entry { src: "(add_path \"/c26/y\" \"/usr/bin\")", eff: |m| { path(m, "/c26/y"); path(m, "/usr/bin") } },
    Entry { src: "(setenv \"E1\" \"v é\")", eff: |m| put(m, "env E1", "v é") },
    Entry { src: "(setenv \"PATH\" \"/c26/p:/bin\" \"/c26/q\")", eff: |m| set_path(m, "/c26/p:/bin:/c26/q") },
    Entry { src: "(setenv \"Z_EXCLUDE\" \"/one:/two\")", eff: |m| { put(m, "env Z_EXCLUDE", "/one:/two"); put(m, "z", "/one\n/two") } },
    Entry { src: "(vset \"V1\" \"w\")", eff: |m| put(m, "var V1", "w") },
    Entry { src: "(vset \"V1\" (+ \"a\" \"b\"))", eff: |m| put(m, "var V1", "ab") },
    Entry { src: "(safety-level \"strict\")", eff: |m| { put(m, "safety", "Strict"); put(m, "var SAFETY_LEVEL", "strict") } },
    Entry { src: "(safety-level \"loose\")", eff: |m| { put(m, "safety", "Loose"); put(m, "var SAFETY_LEVEL", "loose") } },
    Entry { src: "(pref-auto-pair nil)", eff: |m| put(m, "pref pair", "false") },
    Entry { src: "(pref-auto-notify nil)", eff: |m| put(m, "pref notify", "false") },
    Entry { src: "(pref-ai-explanation t)", eff: |m| put(m, "pref explain", "true") },
    Entry { src: "(set-suggestion-mode 'off)", eff: |m| put(m, "pref mode", "Off") },
    Entry { src: "(set-suggestion-ai-enabled t)", eff: |m| put(m, "pref backfill", "true") },
    Entry { src: "(set-auto-fix-enabled t)", eff: |m| put(m, "pref fix", "true") },
    Entry { src: "(set-notify-config t 77)", eff: |m| { put(m, "pref notify", "true"); put(m, "pref threshold", "77") } },
    Entry { src: "(secret-add-pattern \"C26_.*\")", eff: |m| list(m, "secret patterns", "C26_.*", false) },
    Entry { src: "(secret-add-keyword \"CQUX\")", eff: |m| put(m, "secret keyword", "true") },
    Entry { src: "(secret-history-mode \"none\")", eff: |m| put(m, "secret mode", "None") },
    Entry { src: "(secret-history-mode \"redact\")", eff: |m| put(m, "secret mode", "Redact") },
    Entry { src: "(secret-set \"S1\" \"sv\")", eff: |m| put(m, "secret S1", "sv") },
    Entry { src: "(secret-clear)", eff: |m| { m.remove("secret S1"); } },
    Entry { src: "(chat-execute-add \"ls\" \"cat\")", eff: |m| { once(m, "allow", "ls"); once(m, "allow", "cat") } },
    Entry { src: "(chat-execute-clear)", eff: |m| put(m, "allow", "") },
    Entry { src: "(mcp-add-sse \"m1\" \"https://h.example/m\" \"d\")", eff: |m| list(m, "mcp", "m1", false) },
    Entry { src: "(mcp-add-stdio \"m2\" \"/bin/echo\" '(\"x\") '((\"A\" \"b\")) '() \"e\")", eff: |m| list(m, "mcp", "m2", false) },
    Entry { src: "(mcp-clear)", eff: |m| put(m, "mcp", "") },
    Entry { src: "(allow-direnv \"/c26/one\")", eff: |m| once(m, "direnv", "/c26/one") },
    Entry { src: "(autocomplete pro-j '(\"c1\" \"c2\"))", eff: |m| list(m, "auto", "pro_j", false) },
    Entry { src: "(register-action \"C26 Act\" \"about\" \"f1\")", eff: |m| put(m, "action C26 Act", "about") },
    Entry { src: "(register-action \"C26 Act\" \"changed\" \"f1\")", eff: |m| put(m, "action C26 Act", "changed") },
    Entry { src: "(defun f1 (x) (+ x 1)) ; a remark (", eff: |m| put(m, "lisp f1", "7") },
    Entry { src: "(defun f1 (x) (+ x 10))", eff: |m| put(m, "lisp f1", "16") },
    Entry { src: "(define d1 '(1 \"two\"))", eff: |m| put(m, "lisp d1", "(1 two)") },
    Entry { src: "(begin (define d1 5) (set d1 (* d1 d1)))", eff: |m| put(m, "lisp d1", "25") },
    Entry { src: "(defmacro m3 (x) '(list ,x ,x))", eff: |m| put(m, "lisp m3", "(4 4)") },
    Entry { src: "(fn f2 (x) x)", eff: |m| put(m, "lisp f2", "bound") },
    Entry { src: "(add-hook 'pre-exec-hooks (lambda (c) 1))", eff: |m| list(m, "hooks pre-exec", "1", true) },
    Entry { src: "(add-hook 'pre-exec-hooks (lambda (c) 2))", eff: |m| list(m, "hooks pre-exec", "2", true) },
    Entry { src: "(add-hook 'on-chdir-hooks (lambda () 3))", eff: |m| list(m, "hooks on-chdir", "3", true) },
    Entry { src: "(define *on-project-switch-hooks* (list (lambda (p) 4)))", eff: |m| put(m, "hooks on-project-switch", "4") },
    Entry { src: "(if (== 1 1) (alias \"cond\" \"yes\") (alias \"cond\" \"no\"))", eff: |m| put(m, "alias cond", "yes") },
    Entry { src: "; (alias \"off\" \"x\")\n;; )\n", eff: |_| () },
    Entry { src: "\"just a text ) (\"", eff: |_| () },
];
const HOOKS: &[&str] = &["pre-prompt", "pre-exec", "post-exec", "on-chdir", "command-not-found", "completion", "input-timeout"];

/// Ways to fail: while running and while reading. What stands between the halves has already been evaluated, if anything.
const FAIL: &[(&str, &str)] = &[
    ("(no-such-function)", ""),
    ("no-such-name", ""),
    ("(/ 1 0)", ""),
    ("(alias \"only\")", ""),
    ("(safety-level \"mad\")", ""),
    ("(chat-execute-add \"half\" 5)", ""),
    ("(defun f (x) (+ 1 (f x))) (f 1)", ""),
    ("(begin (alias \"in\" \"x\") (vset \"in\" \"x\") (car 5))", ""),
    ("(let ((q 1)) (setenv \"in\" \"x\") (nope q))", ""),
    (")", ""),
    ("(alias \"in\" \"x\"))", ""),
    ("(begin (alias \"in\" \"x\")", ""),
    ("(alias \"in\" \"x", ""),
    ("'", ""),
    ("(secret-add-pattern \"[\")", ""),
    ("(add-hook 'no-such-hooks (lambda () 1))", ""),
];

struct Lab {
    file: std::path::PathBuf,
    engine: Rc<RefCell<LispEngine>>,
    env: Arc<parking_lot::RwLock<Environment>>,
}
impl Lab {
    fn new(file: &std::path::Path) -> Lab {
        doge_shell::command_palette::REGISTRY.write().restore_actions(Default::default());
        let env = Environment::new();
        let engine = LispEngine::new(env.clone());
        Lab { file: file.to_path_buf(), engine, env }
    }
    /// Everything a configuration may change.
    fn dump(&self) -> M {
        let mut m = M::new();
        let e = self.env.read();
        let mut maps = |n: &str, h: &std::collections::HashMap<String, String>| {
            for (k, v) in h {
                m.insert(format!("{n} {k}"), v.clone());
            }
        };
        maps("alias", &e.alias);
        maps("abbr", &e.abbreviations);
        maps("var", &e.variables);
        maps("env", &e.system_env_vars);
        for k in &e.exported_vars {
            m.insert(format!("exported {k}"), String::new());
        }
        put(&mut m, "paths", &e.paths.join("\n"));
        put(&mut m, "z", &e.z_exclude.join("\n"));
        put(&mut m, "direnv", &e.direnv_roots.iter().map(|d| d.path.clone()).collect::<Vec<_>>().join("\n"));
        put(&mut m, "mcp", &e.mcp_servers().iter().map(|s| s.label.clone()).collect::<Vec<_>>().join("\n"));
        put(&mut m, "allow", &e.execute_allowlist().join("\n"));
        put(&mut m, "safety", &format!("{:?}", e.safety_level.read()));
        put(&mut m, "startup", &e.startup_mode.to_string());
        let p = &e.input_preferences;
        put(&mut m, "pref pair", &p.auto_pair.to_string());
        put(&mut m, "pref notify", &p.auto_notify_enabled.to_string());
        put(&mut m, "pref threshold", &p.auto_notify_threshold.to_string());
        put(&mut m, "pref explain", &p.ai_explanation.to_string());
        put(&mut m, "pref mode", &format!("{:?}", p.suggestion_mode));
        put(&mut m, "pref backfill", &p.ai_backfill.to_string());
        put(&mut m, "pref fix", &p.auto_fix.to_string());
        put(&mut m, "auto", &e.autocompletion.iter().map(|a| a.target.clone()).collect::<Vec<_>>().join("\n"));
        let s = &e.secret_manager;
        put(&mut m, "secret patterns", &s.list_patterns().join("\n"));
        put(&mut m, "secret keyword", &s.is_sensitive_key("my_cqux").to_string());
        put(&mut m, "secret mode", &format!("{:?}", s.history_mode()));
        for k in s.list_session_secret_keys() {
            m.insert(format!("secret {k}"), s.get_session_secret(&k).unwrap_or_default());
        }
        drop(e);
        for a in doge_shell::command_palette::REGISTRY.read().get_all() {
            m.insert(format!("action {}", a.name()), a.description().to_string());
        }
        // what names mean: by what they do
        let mut names: Vec<String> = self.engine.borrow().env.borrow().snapshot_entries().keys().map(|k| k.0.clone()).collect();
        names.sort();
        put(&mut m, "names", &names.join(" "));
        let eng = self.engine.borrow();
        for (n, call) in [("f1", "(f1 6)"), ("d1", "d1"), ("m3", "(m3 4)")] {
            if names.iter().any(|x| x == n) {
                m.insert(format!("lisp {n}"), eng.run(call).map_or_else(|e| format!("error {e}"), |v| v.to_string()));
            }
        }
        if names.iter().any(|x| x == "f2") {
            put(&mut m, "lisp f2", "bound");
        }
        for h in HOOKS.iter().chain(&["on-project-switch"]) {
            let list = eng.env.borrow().get(&Symbol::from(format!("*{h}-hooks*").as_str()));
            if let Some(Value::List(l)) = list {
                let args = if ["pre-exec", "on-project-switch"].contains(h) { vec![Value::String("c".into())] } else { vec![] };
                let r: Vec<String> = l.into_iter().map(|f| eng.apply_func(f.clone(), args.clone()).map_or_else(|e| format!("error {e}"), |v| v.to_string())).collect();
                if *h != "on-project-switch" || !r.is_empty() {
                    m.insert(format!("hooks {h}"), r.join("\n"));
                }
            }
        }
        for (k, v) in std::env::vars_os() {
            m.insert(format!("process {}", k.to_string_lossy()), v.to_string_lossy().into_owned());
        }
        m
    }
    fn load(&self, text: &[u8]) -> Result<bool, String> {
        std::fs::write(&self.file, text).unwrap();
        catch(|| self.engine.borrow().run_config_lisp().is_ok())
    }
}

/// A file: entries, and a way to fail before the entry at a position.
#[derive(Clone, Debug)]
struct File {
    e: Vec<usize>,
    fail: Option<(usize, usize)>,
}
impl File {
    fn text(&self) -> String {
        let mut l: Vec<&str> = self.e.iter().map(|i| E[*i].src).collect();
        if let Some((kind, at)) = self.fail {
            l.insert(at, FAIL[kind].0);
        }
        l.join("\n")
    }
    fn apply(&self, m: &mut M) {
        put(m, "mcp", "");
        put(m, "auto", "");
        for h in HOOKS {
            put(m, &format!("hooks {h}"), "");
        }
        for i in &self.e {
            (E[*i].eff)(m);
            let s = E[*i].src;
            for (n, p) in [("f1", "(defun f1"), ("d1", "(define d1"), ("d1", "(begin (define d1"), ("m3", "(defmacro m3"), ("f2", "(fn f2"), ("*on-project-switch-hooks*", "(define *on-")] {
                if s.starts_with(p) {
                    let mut l: Vec<String> = m["names"].split(' ').map(String::from).collect();
                    l.push(n.into());
                    l.sort();
                    l.dedup();
                    put(m, "names", &l.join(" "));
                }
            }
        }
    }
    fn json(&self) -> serde_json::Value {
        json!({"e": self.e, "fail": self.fail.map(|(k, a)| vec![k, a])})
    }
}

fn differ(got: &M, want: &M) -> Vec<String> {
    let mut d = vec![];
    for k in got.keys().chain(want.keys()).collect::<std::collections::BTreeSet<_>>() {
        if got.get(k) != want.get(k) {
            d.push(format!("{k}: {:?}, not {:?}", got.get(k), want.get(k)));
        }
    }
    d
}

fn history(ctx: &mut Ctx, file: &std::path::Path, files: &[File]) {
    let lab = Lab::new(file);
    let mut m = lab.dump();
    let mut why = vec![];
    for (n, f) in files.iter().enumerate() {
        let ok = lab.load(f.text().as_bytes());
        match &ok {
            Ok(ok) if *ok == f.fail.is_none() => {}
            _ => why.push(format!("loading file {n}: {ok:?}")),
        }
        if f.fail.is_none() {
            f.apply(&mut m);
        }
        let got = lab.dump();
        let d = differ(&got, &m);
        ctx.transitions += 1;
        ctx.state(&got.iter().filter(|(k, _)| !k.starts_with("process") && *k != "names").collect::<Vec<_>>());
        if !d.is_empty() {
            why.push(format!("after file {n}: {}", d.join(", ")));
            break;
        }
    }
    ctx.traces += 1;
    ctx.eval(&format!("{files:?}"), files.len() > 1 || files.iter().any(|f| f.fail.is_some_and(|(_, at)| at > 0)));
    if !why.is_empty() {
        let t: Vec<String> = files.iter().map(File::text).collect();
        ctx.violation(format!("files {t:?}"), why.join("; "), json!({"files": files.iter().map(File::json).collect::<Vec<_>>()}));
    }
}

/// Files that cannot be read at all.
fn unreadable(ctx: &mut Ctx, file: &std::path::Path, kind: usize) {
    let lab = Lab::new(file);
    let first = File { e: vec![0, 27, 40], fail: None };
    let mut why = vec![];
    let _ = lab.load(first.text().as_bytes());
    let before = lab.dump();
    let ok = match kind {
        0 => {
            std::fs::remove_file(file).unwrap();
            catch(|| lab.engine.borrow().run_config_lisp().is_ok())
        }
        1 => lab.load(b"(alias \"x\" \"y\")\n(alias \"\xff\" \"z\")"),
        2 => lab.load(&[b"(alias \"x\" \"y\")\n".to_vec(), b"(".repeat(100_000)].concat()),
        _ => {
            std::fs::remove_file(file).unwrap();
            std::fs::create_dir(file).unwrap();
            let r = catch(|| lab.engine.borrow().run_config_lisp().is_ok());
            std::fs::remove_dir(file).unwrap();
            r
        }
    };
    if ok != Ok(false) {
        why.push(format!("the load says {ok:?}"));
    }
    why.extend(differ(&lab.dump(), &before));
    ctx.transitions += 2;
    ctx.traces += 1;
    ctx.eval(&format!("unreadable {kind}"), true);
    if !why.is_empty() {
        ctx.violation(format!("unreadable {kind}"), why.join("; "), json!({"unreadable": kind}));
    }
}

/// The same in the real shell: what the commands around a reload do.
const FILES: &[(&str, bool)] = &[
    ("(alias \"al\" \"rec one\")\n(add-hook 'pre-exec-hooks (lambda (c) (command \"rec\" \"H1\")))\n(setenv \"E26\" \"x1\")", true),
    ("(alias \"al\" \"rec two\")\n(add-hook 'pre-exec-hooks (lambda (c) (command \"rec\" \"H2\")))\n(setenv \"E26\" \"x2\")", true),
    ("(alias \"al\" \"rec three\")\n(add-hook 'pre-exec-hooks (lambda (c) (command \"rec\" \"H3\")))\n(setenv \"E26\" \"x3\")\n(nope)", false),
    ("(alias \"al\" \"rec four\")\n(setenv \"E26\" \"x4\"))\n(alias \"al\" \"rec five\")", false),
    ("; nothing here", true),
];
fn shell(ctx: &mut Ctx, sh: &mut Sh, w: &[usize]) {
    for (i, (text, _)) in FILES.iter().enumerate() {
        std::fs::write(sh.dir.join(format!("f{i}.lisp")), text).unwrap();
    }
    sh.config(FILES[w[0]].0);
    let conf = sh.home.join(".config/dsh/config.lisp");
    let mut lines = vec![];
    let mut want: Vec<String> = vec![];
    // (alias, hook, variable)
    let mut s: (String, Option<&str>, Option<&str>) = ("al".into(), None, None);
    let load = |i: usize, s: &mut (String, Option<&'static str>, Option<&'static str>)| {
        if FILES[i].1 {
            s.1 = None;
            match i {
                0 => *s = ("rec one".into(), Some("H1"), Some("x1")),
                1 => *s = ("rec two".into(), Some("H2"), Some("x2")),
                _ => {}
            }
        }
    };
    load(w[0], &mut s);
    // the shell starts with a change to the directory it is in
    want.extend(s.1.map(|h| format!("rec {h}")));
    let check = |s: &(String, Option<&str>, Option<&str>), want: &mut Vec<String>, lines: &mut Vec<String>| {
        lines.push("al".into());
        if s.0 != "al" {
            want.extend(s.1.map(|h| format!("rec {h}")));
            want.push(s.0.clone());
        }
        lines.push("envp E26".into());
        want.extend(s.1.map(|h| format!("rec {h}")));
        want.push(format!("envp {}", s.2.map_or(String::new(), |v| format!("E26={v}"))).trim().to_string());
    };
    check(&s, &mut want, &mut lines);
    for i in &w[1..] {
        lines.push(format!("/bin/cp {}/f{i}.lisp {}", sh.dir.display(), conf.display()));
        want.extend(s.1.map(|h| format!("rec {h}")));
        lines.push("reload && rec good || rec bad".into());
        want.extend(s.1.map(|h| format!("rec {h}")));
        load(*i, &mut s);
        want.extend(s.1.map(|h| format!("rec {h}")));
        want.push(if FILES[*i].1 { "rec good".into() } else { "rec bad".to_string() });
        check(&s, &mut want, &mut lines);
    }
    let l: Vec<&str> = lines.iter().map(String::as_str).collect();
    let o = sh.session(&l);
    let got: Vec<String> = o
        .log
        .iter()
        .map(|e| {
            let a: Vec<&str> = e["argv"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
            if e["cmd"] == "envp" {
                let v: Vec<String> = e["env"].as_object().into_iter().flatten().map(|(k, v)| format!("{k}={}", v.as_str().unwrap_or("?"))).collect();
                return format!("envp {}", v.join(" ")).trim().to_string();
            }
            format!("{} {}", e["cmd"].as_str().unwrap_or(""), a.join(" "))
        })
        .collect();
    ctx.transitions += w.len() as u64;
    ctx.traces += 1;
    ctx.eval(&format!("shell {w:?}"), true);
    if got != want {
        ctx.violation(format!("shell {w:?}"), format!("files {w:?}: {got:?}, not {want:?}"), json!({"shell": w}));
    }
}

fn run(ctx: &mut Ctx) {
    let conf = ctx.scratch.join("conf");
    std::fs::create_dir_all(conf.join("dsh")).unwrap();
    let file = conf.join("dsh/config.lisp");
    // this process is a worker of its own
    unsafe {
        std::env::set_var("XDG_CONFIG_HOME", &conf);
        std::env::remove_var("Z_EXCLUDE");
        std::env::set_var("PATH", "/usr/bin:/bin");
    }
    let mut sh = Sh::new(&ctx.scratch);
    let nums = |v: &serde_json::Value| v.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
    if let Some(o) = ctx.only.clone() {
        if let Some(k) = o["unreadable"].as_u64() {
            unreadable(ctx, &file, k as usize);
        } else if o["shell"].is_array() {
            shell(ctx, &mut sh, &nums(&o["shell"]));
        } else {
            let fs: Vec<File> = o["files"].as_array().unwrap().iter().map(|f| File { e: nums(&f["e"]), fail: f["fail"].as_array().map(|a| (a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize)) }).collect();
            history(ctx, &file, &fs);
        }
        return;
    }
    for k in 0..4 {
        if ctx.mine() {
            ctx.begin(&format!("unreadable {k}"));
            unreadable(ctx, &file, k);
        }
    }
    // one file, then the same again
    for len in 0..=(if ctx.thorough() { 3 } else { 2 }) {
        sequences(E.len(), len, |s| {
            if ctx.mine() {
                ctx.begin(&format!("file {s:?}"));
                let f = File { e: s.to_vec(), fail: None };
                history(ctx, &file, &[f.clone(), f]);
            }
        });
    }
    // files of one entry each, one after the other
    sequences(E.len(), 2, |s| {
        if ctx.mine() {
            ctx.begin(&format!("files {s:?}"));
            history(ctx, &file, &[File { e: vec![s[0]], fail: None }, File { e: vec![s[1]], fail: None }]);
        }
    });
    // a file that fails, at the start, and after a good one
    for kind in 0..FAIL.len() {
        for a in 0..E.len() {
            for b in 0..E.len() {
                for at in 0..3 {
                    // in front of everything there is nothing to undo
                    if at == 0 && b != 0 {
                        continue;
                    }
                    if !ctx.mine() {
                        continue;
                    }
                    ctx.begin(&format!("fail {kind} {a} {b} {at}"));
                    let bad = File { e: vec![a, b], fail: Some((kind, at)) };
                    let good = File { e: vec![b, a], fail: None };
                    if at == 1 {
                        history(ctx, &file, &[bad, good]);
                    } else {
                        history(ctx, &file, &[good.clone(), bad, good]);
                    }
                }
            }
        }
    }
    for len in 1..=(if ctx.thorough() { 4 } else { 3 }) {
        sequences(FILES.len(), len, |w| {
            if ctx.mine() {
                ctx.begin(&format!("shell {w:?}"));
                shell(ctx, &mut sh, w);
            }
        });
    }
}
