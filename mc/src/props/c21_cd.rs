//! C21: where the shell is. Every sequence of directory changes up to a depth over a small tree
//! (nested directories, a symbolic link, a file, odd names, directories that go away), typed at
//! the real shell and compared with a model of (directory, previous directory).
use super::super::bb::Sh;
use crate::common::*;
use serde_json::json;
use std::path::{Path, PathBuf};

pub fn spec() -> Spec {
    Spec {
        id: "C21",
        level: "model_checking",
        rule: "every sequence of directory changes up to the depth (relative, absolute, home, previous, through a link, by naming a directory, failing ones, into and out of a directory that is removed), typed at the real shell; after it a child process's directory, its PWD, $OLDPWD, the status of each change and the chpwd hook's runs are compared with the model",
        assumptions: &["a shell that reads its lines from a file; the shell resolves symbolic links when it changes directory"],
        shards: 16,
        hang_s: 60,
        run,
    }
}

struct Tree {
    root: PathBuf,
    home: PathBuf,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M {
    cwd: PathBuf,
    old: PathBuf,
    /// the directory we are in no longer exists
    gone: bool,
    hook: usize,
}

const OPS: &[&str] = &[
    "cd d1", "cd ..", "cd -", "cd", "cd nope", "cd f", "cd 'd 2'", "cd ln", "cd ROOT/ln", "cd ~/h", "./d1/sub", "rm-here", "d1", "cd nope || cd d1", "cd ~/nope", "cd ROOT/f", "cd .", "cd d1/sub/../あ", "cd d1 && cd sub", "cd nope && cd d1", "cd ROOT/d1 | flt x",
    "cd \"\"", "cd ~", "cd ../d1/.", "cd ROOT", "cd ROOT/ln/..", "cd ~/../t", "./~", "./-", "cd ./-", "rec (cd d1)",
];

fn line(t: &Tree, m: &M, op: &str) -> String {
    if op == "rm-here" { format!("/bin/rmdir {}", m.cwd.display()) } else { op.replace("ROOT", &t.root.display().to_string()) }
}

/// One change: where to, seen from the model's directory. Err if it must fail.
fn target(t: &Tree, m: &M, arg: Option<&str>) -> Result<PathBuf, ()> {
    let abs = match arg {
        None | Some("~") => t.home.clone(),
        Some("-") => m.old.clone(),
        Some(a) if a.starts_with("~/") => t.home.join(&a[2..]),
        Some(a) if a.starts_with('/') => PathBuf::from(a),
        Some(_) if m.gone => return Err(()),
        Some(a) => m.cwd.join(a),
    };
    let real = abs.canonicalize().map_err(|_| ())?;
    if real.is_dir() { Ok(real) } else { Err(()) }
}

fn cd(t: &Tree, m: &mut M, arg: Option<&str>) -> bool {
    match target(t, m, arg) {
        Ok(p) => {
            if !m.gone {
                m.old = m.cwd.clone();
            }
            m.cwd = p;
            m.gone = false;
            m.hook += 1;
            true
        }
        Err(()) => false,
    }
}

/// Apply to the model; the real file tree is kept in the state the model is in. `None`: outside the model.
fn step(t: &Tree, m: &mut M, op: &str) -> Option<bool> {
    let unq = |s: &str| s.trim_matches(|c| c == '\'' || c == '"').to_string();
    Some(match op {
        "rm-here" => {
            // only an empty directory that is not needed elsewhere
            if m.gone || m.cwd != t.root.join("d1/sub") {
                return None;
            }
            std::fs::remove_dir(&m.cwd).unwrap();
            m.gone = true;
            true
        }
        // a substitution has a directory of its own
        "rec (cd d1)" => true,
        "d1" | "./d1/sub" | "./~" | "./-" => {
            if m.gone {
                return None;
            }
            cd(t, m, Some(op))
        }
        "cd" => cd(t, m, None),
        "cd d1 && cd sub" => cd(t, m, Some("d1")) && cd(t, m, Some("sub")),
        "cd nope && cd d1" => cd(t, m, Some("nope")) && cd(t, m, Some("d1")),
        "cd nope || cd d1" => cd(t, m, Some("nope")) || cd(t, m, Some("d1")),
        "cd ROOT/d1 | flt x" => {
            cd(t, m, Some(&t.root.join("d1").display().to_string()));
            true
        }
        "cd \"\"" => cd(t, m, Some(".")),
        o => {
            let a = unq(o.strip_prefix("cd ").unwrap()).replace("ROOT", &t.root.display().to_string());
            cd(t, m, Some(&a))
        }
    })
}

fn build(t: &Tree) {
    let _ = std::fs::remove_dir_all(&t.root);
    for d in ["d1/sub", "d 2", "d1/あ", "d 2/d1/sub", "~", "-", "d1/-"] {
        std::fs::create_dir_all(t.root.join(d)).unwrap();
    }
    std::fs::create_dir_all(t.home.join("h/d1")).unwrap();
    std::fs::write(t.root.join("f"), "").unwrap();
    std::os::unix::fs::symlink("d 2/d1", t.root.join("ln")).unwrap();
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    let canon = |p: &Path| {
        std::fs::create_dir_all(p).unwrap();
        p.canonicalize().unwrap()
    };
    let t = Tree { root: canon(&c.scratch.join("bb/t")), home: canon(&c.scratch.join("bbhome")) };
    sh.home = t.home.clone();
    sh.config("(defun hf () (print \"HOOK\")) (add-hook 'on-chdir-hooks 'hf)");
    let depth = if c.thorough() { 4 } else { 3 };
    let core: Vec<usize> = ["cd d1", "cd ..", "cd -", "cd nope", "cd ln", "rm-here"].iter().map(|x| OPS.iter().position(|o| o == x).unwrap()).collect();
    for len in 1..=depth {
        let n = if len == 3 && !c.thorough() { 14 } else { OPS.len() };
        sequences(n, len, |s| one(c, &mut sh, &t, &s.iter().map(|&i| OPS[i]).collect::<Vec<_>>()));
    }
    let extra = if c.thorough() { 5 } else { 4 };
    sequences(core.len(), extra, |s| one(c, &mut sh, &t, &s.iter().map(|&i| OPS[core[i]]).collect::<Vec<_>>()));
}

fn one(c: &mut Ctx, sh: &mut Sh, t: &Tree, ops: &[&str]) {
    if !c.mine() {
        return;
    }
    let key = ops.join("; ");
    if let Some(r) = &c.only {
        if r["ops"] != json!(key) {
            return;
        }
    }
    c.begin(&key);
    build(t);
    let start = sh.dir.clone();
    let start = start.canonicalize().unwrap();
    let mut m = M { cwd: start.clone(), old: start.clone(), gone: false, hook: 0 };
    cd(t, &mut m, Some(&t.root.display().to_string()));
    let mut lines = vec![format!("cd {}", t.root.display())];
    let mut oks = vec![];
    let mut hist = vec![m.clone()];
    for op in ops {
        let l = line(t, &m, op);
        let Some(ok) = step(t, &mut m, op) else {
            build(t);
            return;
        };
        // the status of each change, and where it left us
        let l = if op.contains("||") || op.contains("&&") || op.starts_with("rm-") || op.contains('|') || !op.starts_with("cd") { l } else { format!("{l} && rec OK") };
        if l.ends_with("rec OK") {
            oks.push(ok);
        }
        lines.push(l);
        lines.push("envp PWD".into());
        lines.push("rec OLD $OLDPWD".into());
        hist.push(m.clone());
        c.state(&m);
        c.transitions += 1;
    }
    build(t);
    let o = sh.session(&lines.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    c.eval(&key, true);
    c.traces += 1;
    let mut bad = vec![];
    let at: Vec<(String, String)> = o.log.iter().filter(|l| l["cmd"] == "envp").map(|l| (l["cwd"].as_str().unwrap_or("").to_string(), l["env"]["PWD"].as_str().unwrap_or("-").to_string())).collect();
    let want: Vec<(String, String)> = hist[1..].iter().map(|m| (if m.gone { String::new() } else { m.cwd.display().to_string() }, m.cwd.display().to_string())).collect();
    if at != want {
        bad.push(format!("(directory, PWD) were {at:?}, expected {want:?}"));
    }
    let recs = o.cmds().into_iter().filter(|x| x.0 == "rec").map(|x| x.1).collect::<Vec<_>>();
    let olds: Vec<String> = recs.iter().filter(|r| r.first().is_some_and(|x| x == "OLD")).map(|r| r.get(1).cloned().unwrap_or_default()).collect();
    let wold: Vec<String> = hist[1..].iter().map(|m| m.old.display().to_string()).collect();
    if olds != wold {
        bad.push(format!("$OLDPWD was {olds:?}, expected {wold:?}"));
    }
    let nok = recs.iter().filter(|r| **r == ["OK"]).count();
    if nok != oks.iter().filter(|x| **x).count() {
        bad.push(format!("{nok} of the changes reported success, expected {oks:?}"));
    }
    // the hook runs once for every change (and for the shell's own, when it starts)
    let hooks = o.stdout.matches("HOOK").count();
    if hooks != m.hook + 1 && !ops.contains(&"rec (cd d1)") {
        bad.push(format!("the chpwd hook ran {hooks} times for {} changes", m.hook + 1));
    }
    if !bad.is_empty() {
        c.violation(key.clone(), format!("`{key}`: {}; {}", bad.join("; "), o.stderr.chars().take(200).collect::<String>()), json!({"ops": key}));
    } else if ops.len() == 2 {
        c.sample(json!({"ops": key, "ends_in": m.cwd.strip_prefix(&t.root).unwrap_or(&m.cwd), "previous": m.old.strip_prefix(&t.root).unwrap_or(&m.old)}));
    }
}
