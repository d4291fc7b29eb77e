//! C05: redirections. Every sequence of redirections on single commands, every placement in
//! pipelines and lists, run in the real shell on real files, against a model of the files.
use super::super::bb::{Out, Sh};
use crate::common::*;
use serde_json::json;
use std::collections::BTreeMap;

#[path = "words_util.rs"]
mod wu;

#[derive(Clone, Copy, Debug, PartialEq)]
enum R {
    In,
    Out,
    App,
    Err,
    ErrApp,
    Both,
    BothApp,
}
use R::*;
const KINDS: [R; 7] = [In, Out, App, Err, ErrApp, Both, BothApp];
const FILES: [&str; 3] = ["new", "old", "emp"];

type Fs = BTreeMap<String, String>;

fn op(r: R) -> &'static str {
    match r {
        In => "<",
        Out => ">",
        App => ">>",
        Err => "2>",
        ErrApp => "2>>",
        Both => "&>",
        BothApp => "&>>",
    }
}

#[derive(Clone, Debug)]
struct Stage {
    tag: String,
    code: i32,
    redirs: Vec<(R, String)>,
    /// one of the shell's own commands instead of a program
    own: bool,
}

/// The shell's own commands used: what is typed, status, output, errors.
const OWN: &[(&str, i32, &str, &str)] = &[
    ("cd nodirZ", 1, "", "cd: No such file or directory (os error 2): nodirZ\n"),
    ("alias", 0, "No aliases defined\n", ""),
];

fn own(i: usize, redirs: Vec<(R, String)>) -> Stage {
    Stage { tag: OWN[i].0.into(), code: OWN[i].1, redirs, own: true }
}

fn stage_text(s: &Stage, style: usize) -> String {
    let rs: Vec<String> = s.redirs.iter().map(|(r, f)| if style == 0 { format!("{} {}", op(*r), f) } else { format!("{}{}", op(*r), f) }).collect();
    let base = if s.own { s.tag.clone() } else { format!("flt {} {} E{}", s.tag, s.code, s.tag) };
    if rs.is_empty() {
        base
    } else if style == 2 && !s.own {
        // between the arguments
        format!("flt {} {} {} E{}", s.tag, rs.join(" "), s.code, s.tag)
    } else {
        format!("{base} {}", rs.join(" "))
    }
}

#[derive(Default, Debug, Clone, PartialEq)]
struct World {
    fs: Fs,
    out: Vec<String>,
    err: Vec<String>,
    ran: Vec<(String, String)>, // tag, stdin
    code: i32,
}

enum Dest {
    Inherit,
    File(String),
}

fn deliver(w: &mut World, d: &Dest, text: &str, is_err: bool, piped: &mut Option<String>) {
    match d {
        Dest::File(f) => w.fs.entry(f.clone()).or_default().push_str(text),
        Dest::Inherit if !is_err && piped.is_some() => piped.as_mut().unwrap().push_str(text),
        Dest::Inherit => (if is_err { &mut w.err } else { &mut w.out }).extend(text.lines().map(|l| l.to_string())),
    }
}

/// Run a pipeline in the model; `None` if a file to read is missing (nothing is specified then).
fn pipeline(w: &mut World, stages: &[Stage]) -> Option<()> {
    let mut input = String::new();
    for (i, s) in stages.iter().enumerate() {
        let mut out = Dest::Inherit;
        let mut err = Dest::Inherit;
        for (r, f) in &s.redirs {
            match r {
                In => input = w.fs.get(f)?.clone(),
                Out | Err | Both => {
                    w.fs.insert(f.clone(), String::new());
                }
                _ => {
                    w.fs.entry(f.clone()).or_default();
                }
            }
            match r {
                Out | App => out = Dest::File(f.clone()),
                Err | ErrApp => err = Dest::File(f.clone()),
                Both | BothApp => {
                    out = Dest::File(f.clone());
                    err = Dest::File(f.clone());
                }
                In => {}
            }
        }
        let mut piped = if i + 1 < stages.len() { Some(String::new()) } else { None };
        if s.own {
            let o = OWN.iter().find(|o| o.0 == s.tag).unwrap();
            deliver(w, &err, o.3, true, &mut piped);
            deliver(w, &out, o.2, false, &mut piped);
        } else {
            w.ran.push((s.tag.clone(), input.clone()));
            deliver(w, &err, &format!("E{}\n", s.tag), true, &mut piped);
            deliver(w, &out, &format!("{}({})\n", s.tag, input.trim_end_matches('\n')), false, &mut piped);
        }
        input = piped.unwrap_or_default();
        w.code = s.code;
    }
    Some(())
}

fn initial() -> Fs {
    [("old".to_string(), "OLD\n".to_string()), ("emp".into(), String::new()), ("in".into(), "IN\n".into())].into_iter().collect()
}

fn reset(sh: &Sh, fs: &Fs) {
    for e in std::fs::read_dir(&sh.dir).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() { std::fs::remove_dir_all(p).unwrap() } else { std::fs::remove_file(p).unwrap() }
    }
    for (k, v) in fs {
        std::fs::write(sh.dir.join(k), v).unwrap();
    }
}

fn observe(sh: &Sh, o: &Out) -> World {
    let mut fs = Fs::new();
    for e in std::fs::read_dir(&sh.dir).unwrap().flatten() {
        if e.path().is_file() {
            fs.insert(e.file_name().to_string_lossy().into_owned(), String::from_utf8_lossy(&std::fs::read(e.path()).unwrap()).into_owned());
        }
    }
    let lines = |s: &str| s.replace('\r', "").lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect::<Vec<_>>();
    World {
        fs,
        out: lines(&o.stdout),
        err: lines(&o.stderr),
        ran: o.log.iter().map(|l| (l["argv"][0].as_str().unwrap_or("").to_string(), l["stdin"].as_str().unwrap_or("").to_string())).collect(),
        code: o.code.unwrap_or(-99),
    }
}

/// A list of pipelines joined by `;`, `&&` or `||`.
fn check(c: &mut Ctx, sh: &Sh, kind: &str, list: &[Vec<Stage>], ops: &[&str], style: usize) {
    // Files written by two descriptors at once, or read and written by stages side by side, have
    // no single outcome: left out.
    for p in list {
        let fs: Vec<&String> = p.iter().flat_map(|s| s.redirs.iter().map(|r| &r.1)).collect();
        for (i, f) in fs.iter().enumerate() {
            if fs[..i].contains(f) {
                return;
            }
        }
    }
    let mut want = World { fs: initial(), ..Default::default() };
    let mut line = String::new();
    for (i, p) in list.iter().enumerate() {
        if i > 0 {
            line += &format!(" {} ", ops[i - 1]);
        }
        line += &p.iter().map(|s| stage_text(s, style)).collect::<Vec<_>>().join(" | ");
        let go = i == 0 || match ops[i - 1] {
            "&&" => want.code == 0,
            "||" => want.code != 0,
            _ => true,
        };
        if go && pipeline(&mut want, p).is_none() {
            return;
        }
    }
    if !c.mine() {
        return;
    }
    c.begin(&line);
    reset(sh, &initial());
    let o = sh.run(&line);
    let got = observe(sh, &o);
    c.eval((kind, &line), list.iter().any(|p| p.iter().any(|s| !s.redirs.is_empty())));
    c.transitions += want.ran.len() as u64;
    c.state((&want.fs, &want.out, &want.err));
    if o.timed_out {
        c.hangs += 1;
    }
    let mut g = got.clone();
    let mut w = want.clone();
    // stages of a pipeline report their errors side by side, and a stage that does not read the
    // one before may finish first
    g.err.sort();
    w.err.sort();
    if list.iter().any(|p| p.len() > 1) {
        g.ran.sort();
        w.ran.sort();
    }
    if g != w {
        c.violation(
            format!("{kind}:{line}"),
            format!("`{line}`: expected {w:?}, got {g:?}"),
            json!({"line": line, "want": format!("{want:?}")}),
        );
    } else {
        c.sample(json!({"line": line, "files": got.fs, "out": got.out, "err": got.err}));
    }
}

fn one(r: R, f: &str) -> (R, String) {
    (r, f.to_string())
}
fn st(tag: &str, redirs: Vec<(R, String)>) -> Stage {
    Stage { tag: tag.into(), code: 0, redirs, own: false }
}

fn raw(c: &mut Ctx, sh: &Sh, kind: &str, line: &str, judge: impl Fn(&Out, &Fs) -> Option<String>) {
    if !c.mine() {
        return;
    }
    c.begin(line);
    reset(sh, &initial());
    std::fs::create_dir_all(sh.dir.join("d")).unwrap();
    let o = sh.run(line);
    let got = observe(sh, &o);
    c.eval((kind, line), true);
    c.transitions += 1;
    if o.timed_out {
        c.hangs += 1;
    }
    if let Some(m) = if o.timed_out { Some("did not finish".to_string()) } else { judge(&o, &got.fs) } {
        c.violation(format!("{kind}:{line}"), format!("`{line}`: {m}; status {:?}, stderr {:?}", o.code, o.stderr.chars().take(200).collect::<String>()), json!({"line": line}));
    }
}

fn run(c: &mut Ctx) {
    let sh = Sh::new(&c.scratch);
    if let Some(r) = c.only.clone() {
        let l = r["line"].as_str().unwrap_or_default().to_string();
        reset(&sh, &initial());
        let o = sh.run(&l);
        let got = observe(&sh, &o);
        println!("{l:?}: {o:#?}\n{got:#?}");
        c.violation(format!("replay:{l}"), format!("got {got:?}; expected {}", r["want"].as_str().unwrap_or("?")), r);
        return;
    }
    let mut all: Vec<(R, String)> = vec![];
    for k in KINDS {
        for f in FILES.iter().chain(["in"].iter()) {
            if k != In || *f != "new" {
                all.push(one(k, f));
            }
        }
    }
    // single commands: every sequence of up to two (three) redirections
    for a in &all {
        for style in 0..3 {
            check(c, &sh, "one", &[vec![st("a", vec![a.clone()])]], &[], style);
            let mut f = st("a", vec![a.clone()]);
            f.code = 3;
            check(c, &sh, "one", &[vec![f]], &[], style);
        }
        for b in &all {
            for style in [0, 2] {
                check(c, &sh, "two", &[vec![st("a", vec![a.clone(), b.clone()])]], &[], style);
            }
            for d in &all {
                if c.thorough() || (a.0 != b.0 && b.0 != d.0 && d.1 != "emp" && a.1 != "in") {
                    check(c, &sh, "three", &[vec![st("a", vec![a.clone(), b.clone(), d.clone()])]], &[], 0);
                }
            }
        }
    }
    // pipelines: a redirection or none on every stage
    let mut opt: Vec<Vec<(R, String)>> = vec![vec![]];
    opt.extend(all.iter().map(|a| vec![a.clone()]));
    for a in &opt {
        for b in &opt {
            check(c, &sh, "pipe", &[vec![st("a", a.clone()), st("b", b.clone())]], &[], 0);
        }
    }
    let few: Vec<Vec<(R, String)>> = vec![vec![], vec![one(In, "in")], vec![one(Out, "new")], vec![one(Err, "old")], vec![one(BothApp, "emp")], vec![one(Both, "new2")], vec![one(App, "old"), one(Err, "e2")]];
    for a in &few {
        for b in &few {
            for d in &few {
                check(c, &sh, "pipe3", &[vec![st("a", a.clone()), st("b", b.clone()), st("c", d.clone())]], &[], 0);
            }
            if c.thorough() {
                for d in &few {
                    for e in &few {
                        check(c, &sh, "pipe4", &[vec![st("a", a.clone()), st("b", b.clone()), st("c", d.clone()), st("d", e.clone())]], &[], 0);
                    }
                }
            }
        }
    }
    // lists: each command starts from the shell's own input and output, and sees what the one
    // before left in the files
    for a in &opt {
        for b in &opt {
            for o in [";", "&&"] {
                if o == ";" || c.thorough() {
                    check(c, &sh, "list", &[vec![st("a", a.clone())], vec![st("b", b.clone())]], &[o], 0);
                }
            }
            // through one file: written by the first, read by the second, appended by the third
            if let (Some(x), Some(y)) = (a.first(), b.first()) {
                if x.1 == "new" && y.1 == "old" {
                    check(c, &sh, "chain", &[vec![st("a", a.clone())], vec![st("b", vec![one(In, "new"), y.clone()])], vec![st("c", vec![one(In, "old"), one(App, "new")])]], &[";", "&&"], 0);
                }
            }
        }
        check(c, &sh, "list", &[vec![st("a", a.clone()), st("b", a.clone().into_iter().map(|(r, f)| (r, format!("x{f}"))).filter(|(r, _)| *r != In).collect())], vec![st("c", vec![])]], &[";"], 0);
        check(c, &sh, "list", &[vec![st("c", vec![])], vec![st("a", a.clone()), st("b", vec![])]], &[";"], 0);
    }
    // the shell's own commands: alone, in lists, and first in a pipeline
    for i in 0..OWN.len() {
        for a in opt.iter().filter(|a| a.first().is_none_or(|x| x.0 != In)) {
            check(c, &sh, "own", &[vec![own(i, a.clone())]], &[], 0);
            check(c, &sh, "own", &[vec![own(i, a.clone()), st("b", vec![])]], &[], 0);
            for o in [";", "&&", "||"] {
                check(c, &sh, "own", &[vec![own(i, a.clone())], vec![st("b", vec![])]], &[o], 0);
                check(c, &sh, "own", &[vec![st("b", vec![])], vec![own(i, a.clone())]], &[o], 0);
            }
            for b in all.iter().filter(|b| b.0 != In) {
                check(c, &sh, "own2", &[vec![own(i, [a.clone(), vec![b.clone()]].concat())]], &[], 0);
                for j in 0..OWN.len() {
                    check(c, &sh, "own-list", &[vec![own(i, a.clone())], vec![own(j, vec![b.clone()])]], &[";"], 0);
                }
            }
        }
    }
    // amounts of data
    let sizes: &[usize] = &[0, 1, 4095, 65536, 65537, 1 << 20];
    for n in sizes {
        for k in [">", ">>", "&>", "&>>"] {
            for f in ["new", "old"] {
                let pre = if k.ends_with(">>") && f == "old" { 4 } else { 0 };
                raw(c, &sh, "size", &format!("big {n} {k} {f} ; cnt < {f}"), |o, fs| {
                    (o.text().trim() != (n + pre).to_string() || fs.get(f).map(|s| s.len()) != Some(n + pre)).then(|| format!("counted {:?}, file holds {:?}", o.text().trim(), fs.get(f).map(|s| s.len())))
                });
                raw(c, &sh, "size", &format!("big {n} | cat {k} {f} && cat {f} | cnt"), |o, fs| {
                    (o.text().trim() != (n + pre).to_string() || fs.get(f).map(|s| s.len()) != Some(n + pre)).then(|| format!("counted {:?}, file holds {:?}", o.text().trim(), fs.get(f).map(|s| s.len())))
                });
            }
        }
    }
    // a target that cannot be opened, or a file to read that is not there: the command does not
    // run, the other files stay as they are
    for bad in ["> nodir/x", ">> nodir/x", "2> nodir/x", "&> nodir/x", "&>> nodir/x", "< missing", "> d", ">> d", "2> d", "> ''"] {
        for l in [format!("flt a 0 {bad}"), format!("ex 0 b && flt a 0 {bad}"), format!("flt a 0 {bad} && ex 0 b")] {
            let n = if l.starts_with("ex") { 1 } else { 0 };
            raw(c, &sh, "bad", &l, |o, fs| {
                (o.log.len() != n || o.code == Some(0) || *fs != initial()).then(|| format!("ran {:?}, files {:?}", o.cmds(), fs))
            });
        }
    }
    // file names with every special character, in every way of writing them
    let sig: &[char] = wu::SIGMA;
    for n in 1..=(if c.thorough() { 2 } else { 1 }) {
        wu::words(sig, n, &mut |w| {
            if w.contains('/') || w == "." || w == ".." || w == "d" {
                return;
            }
            for (src, k) in [(wu::esc(w), "esc"), (wu::squote(w), "sq"), (wu::dquote(w), "dq")] {
                for line in [format!("flt a 0 > {src} ; flt b 0 < {src}"), format!("flt a 0 > {src} ; flt b 0 < {src} ; rec ~"), format!("big 3 | flt a 0 &>> {src} && flt b 0 < {src} 2>> {src}")] {
                    let (w, l2) = (w.to_string(), line.clone());
                    raw(c, &sh, &format!("name-{k}"), &line, move |o, fs| {
                        let body = if l2.starts_with("big") { "a(xxx)\n" } else { "a()\n" };
                        let extra = fs.keys().filter(|k| !initial().contains_key(*k) && **k != w).count();
                        let b = o.log.iter().find(|l| l["argv"][0] == "b").and_then(|l| l["stdin"].as_str()).unwrap_or("-").to_string();
                        (fs.get(&w).map(|s| s.as_str()) != Some(body) || b != body || extra > 0).then(|| format!("files {fs:?}, read back {b:?}"))
                    });
                }
            }
        });
    }
    // in a variable, below home, and as an argument that only looks like one
    for (line, f) in [("flt a 0 > ~/out1", "HOME"), ("flt a 0 > out\\>1", "out>1"), ("flt a 0 '>' new", ""), ("flt a 0 \\> new", ""), ("flt a 0 2 > new", "new"), ("flt a 0 x2>new", "new"), ("flt a 0 \"2>\" new", "")] {
        raw(c, &sh, "look", line, |o, fs| {
            let content = if f == "HOME" { std::fs::read_to_string(sh.home.join("out1")).ok() } else { fs.get(f).cloned() };
            if f.is_empty() {
                (*fs != initial() || o.text().trim() != "a()").then(|| format!("files {fs:?}, output {:?}", o.text()))
            } else {
                (content.as_deref() != Some("a()\n") || fs.len() != initial().len() + (f != "HOME") as usize).then(|| format!("files {fs:?}"))
            }
        });
        let _ = std::fs::remove_file(sh.home.join("out1"));
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C05",
        level: "exploration",
        rule: "every sequence of up to two redirections (three, with restrictions in quick) of the seven kinds over an absent, a filled and an empty file; every choice of one redirection or none on each stage of two-stage pipelines, seven choices on three (four) stages; every pair on two-command lists, chains through one file; six sizes around the pipe's capacity; unopenable targets; every special character in file names",
        assumptions: &["each line runs in the real shell (dsh -c) on real files with recording filters as commands", "two descriptors on one file at once are left out: their outcome is not defined"],
        shards: 24,
        hang_s: 120,
        run,
    }
}
