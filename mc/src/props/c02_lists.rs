//! C02: command lists, pipelines and substitutions run what they say, once, in order, and report
//! the status of the last command run. Every line of a bounded grammar is run in the real shell
//! with recording stand-ins as commands, and compared with a small interpreter of the language.
use crate::bb::{Out, Sh};
use crate::common::*;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Ext(i32),             // ex CODE TAG
    Kill,                 // killed by a signal
    CdOk,                 // builtin, succeeds (later commands see the directory)
    CdBad,                // builtin, fails
    ExportOk,             // builtin, succeeds
    Pipe(i32, i32),       // flt TAG A | flt TAG' B
    Pipe3(i32, i32, i32), // three stages
    PipeCd(i32),          // builtin | external
    Cap(i32),             // flt TAG CODE |>
    Subst,                // rec $(src ..)
}

#[derive(Default, Clone, Debug, PartialEq)]
struct World {
    log: Vec<(String, Vec<String>, String)>, // command, argv, directory suffix
    stdins: Vec<String>,
    out: String,
    err_cd: usize,
    cwd: String,
    code: i32,
}

const KILLED: i32 = -1;

fn text(it: Item, t: &str) -> String {
    match it {
        Item::Ext(c) => format!("ex {c} {t}"),
        Item::Kill => format!("kil 9 {t}"),
        Item::CdOk => "cd sub".into(),
        Item::CdBad => "cd nowhere".into(),
        Item::ExportOk => format!("export MCV={t}"),
        Item::Pipe(a, b) => format!("flt {t} {a} | flt {t}q {b}"),
        Item::Pipe3(a, b, c) => format!("flt {t} {a} | flt {t}q {b} | flt {t}r {c}"),
        Item::PipeCd(c) => format!("cd . | flt {t} {c}"),
        Item::Cap(c) => format!("flt {t} {c} |>"),
        Item::Subst => format!("rec $(src S{t} \"v{t} w\") z{t}"),
    }
}

fn exec(it: Item, t: &str, w: &mut World) -> i32 {
    let log = |w: &mut World, c: &str, a: Vec<String>| w.log.push((c.into(), a, w.cwd.clone()));
    let flt = |w: &mut World, tag: String, code: i32, input: &str| -> String {
        w.stdins.push(input.to_string());
        w.log.push(("flt".into(), vec![tag.clone(), code.to_string()], w.cwd.clone()));
        format!("{}({})\n", tag, input.trim_end_matches('\n'))
    };
    match it {
        Item::Ext(c) => {
            log(w, "ex", vec![c.to_string(), t.into()]);
            c
        }
        Item::Kill => {
            log(w, "kil", vec!["9".into(), t.into()]);
            KILLED
        }
        Item::CdOk => {
            if w.cwd.is_empty() {
                w.cwd = "/sub".into();
                0
            } else {
                w.err_cd += 1;
                1
            }
        }
        Item::CdBad => {
            w.err_cd += 1;
            1
        }
        Item::ExportOk => 0,
        Item::Pipe(a, b) => {
            let x = flt(w, t.into(), a, "");
            let y = flt(w, format!("{t}q"), b, &x);
            w.out += &y;
            b
        }
        Item::Pipe3(a, b, c) => {
            let x = flt(w, t.into(), a, "");
            let y = flt(w, format!("{t}q"), b, &x);
            let z = flt(w, format!("{t}r"), c, &y);
            w.out += &z;
            c
        }
        Item::PipeCd(c) => {
            let z = flt(w, t.into(), c, "");
            w.out += &z;
            c
        }
        Item::Cap(c) => {
            let z = flt(w, t.into(), c, "");
            w.out += &z;
            c
        }
        Item::Subst => {
            log(w, "src", vec![format!("S{t}"), format!("v{t} w")]);
            log(w, "rec", vec![format!("v{t}"), "w".into(), format!("z{t}")]);
            0
        }
    }
}

/// ops: ';' '&' (and) '|' (or)
fn model(items: &[Item], ops: &[char]) -> (World, Vec<bool>) {
    let mut w = World::default();
    let mut ran = vec![];
    for (i, &it) in items.iter().enumerate() {
        let go = i == 0
            || match ops[i - 1] {
                '&' => w.code == 0,
                '|' => w.code != 0,
                _ => true,
            };
        ran.push(go);
        if go {
            w.code = exec(it, &format!("t{i}"), &mut w);
        }
    }
    (w, ran)
}

fn line(items: &[Item], ops: &[char], tight: bool) -> String {
    let mut s = String::new();
    for (i, &it) in items.iter().enumerate() {
        if i > 0 {
            let cap = matches!(items[i - 1], Item::Cap(_));
            let o = match ops[i - 1] {
                '&' => "&&",
                '|' => "||",
                'n' => "\n",
                _ => ";",
            };
            // the grammar wants the separator directly after |>
            if cap || tight {
                s += o;
            } else {
                s += " ";
                s += o;
            }
            s += if tight { "" } else { " " };
        }
        s += &text(it, &format!("t{i}"));
    }
    s
}

fn observed(o: &Out, base: &str) -> World {
    World {
        log: o
            .log
            .iter()
            .map(|l| {
                let cwd = l["cwd"].as_str().unwrap_or("").to_string();
                (
                    l["cmd"].as_str().unwrap_or("").to_string(),
                    l["argv"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
                    cwd.strip_prefix(base).map(|s| s.to_string()).unwrap_or(cwd),
                )
            })
            .collect(),
        stdins: o.log.iter().filter_map(|l| l["stdin"].as_str().map(|s| s.to_string())).collect(),
        out: o.stdout.replace('\r', "").lines().filter(|l| !l.is_empty()).map(|l| format!("{l}\n")).collect(),
        err_cd: o.stderr.matches("cd:").count(),
        cwd: String::new(),
        code: o.code.unwrap_or(-99),
    }
}

fn check(c: &mut Ctx, sh: &mut Sh, items: &[Item], ops: &[char], tight: bool, session: bool) {
    let l = if session { (0..items.len()).map(|i| text(items[i], &format!("t{i}"))).collect::<Vec<_>>().join("\n") } else { line(items, ops, tight) };
    c.begin(&l);
    let (mut want, ran) = model(items, ops);
    let o = if session { sh.session(&l.lines().collect::<Vec<_>>()) } else { sh.run(&l) };
    let l = if session { format!("(read line by line) {l}") } else { l };
    let base = sh.dir.canonicalize().unwrap().display().to_string();
    let mut got = observed(&o, &base);
    want.cwd.clear();
    c.transitions += ran.iter().filter(|x| **x).count() as u64;
    c.eval(&l, ran.len() > 1);
    c.state((&want.log, want.code));
    if want.code == KILLED {
        // any failure will do for a command ended by a signal
        want.code = if got.code != 0 && o.signal.is_none() { got.code } else { 1 };
    }
    if session {
        want.code = 0;
        got.out = got.out.replace("\u{1b}[?2004l", "").lines().filter(|l| !l.is_empty()).map(|l| format!("{l}\n")).collect();
    }
    if o.timed_out {
        c.hangs += 1;
        c.violation(format!("list:{l}"), "the line did not finish", json!({"line": l}));
        return;
    }
    got.cwd.clear();
    // A substitution is evaluated when its line is read; which of them run early is checked apart.
    let eager = !session && items.iter().skip(1).any(|i| *i == Item::Subst);
    if eager {
        let strip = |w: &mut World| w.log.retain(|e| e.0 != "src");
        strip(&mut want);
        strip(&mut got);
        for e in got.log.iter_mut().chain(want.log.iter_mut()) {
            if e.0 == "rec" {
                e.2.clear();
            }
        }
    }
    if got != want {
        c.violation(
            format!("list:{l}"),
            format!("`{}`: expected {:?}, got {:?} (stderr {:?})", l.replace('\n', "\\n"), want, got, o.stderr.chars().take(200).collect::<String>()),
            json!({"line": l, "want": format!("{want:?}"), "got": format!("{got:?}")}),
        );
    } else {
        c.sample(json!({"line": l, "status": got.code, "ran": ran}));
    }
}

/// opset empty: the items are lines read one after the other from the standard input.
fn lists(c: &mut Ctx, sh: &mut Sh, alphabet: &[Item], n: usize, opset: &[char], tight: bool) {
    let session = opset.is_empty();
    let opset = if session { &[';'] } else { opset };
    let k = alphabet.len();
    let m = opset.len();
    let total = k.pow(n as u32) * m.pow(n as u32 - 1);
    for code in 0..total {
        if !c.mine() {
            continue;
        }
        let mut x = code;
        let mut items = vec![];
        let mut ops = vec![];
        for i in 0..n {
            items.push(alphabet[x % k]);
            x /= k;
            if i > 0 {
                ops.push(opset[x % m]);
                x /= m;
            }
        }
        check(c, sh, &items, &ops, tight, session);
    }
}

fn simple(c: &mut Ctx, sh: &Sh, kind: &str, l: &str, want_cmds: &[(&str, &[&str])], out: Option<&str>, code: Option<i32>) {
    if !c.mine() {
        return;
    }
    c.begin(l);
    let o = sh.run(l);
    c.eval(l, true);
    c.transitions += want_cmds.len() as u64;
    let got = o.cmds();
    let want: Vec<(String, Vec<String>)> = want_cmds.iter().map(|(a, b)| (a.to_string(), b.iter().map(|x| x.to_string()).collect())).collect();
    let mut bad = vec![];
    if o.timed_out {
        c.hangs += 1;
        bad.push("did not finish".to_string());
    }
    if got != want {
        bad.push(format!("commands run: expected {want:?}, got {got:?}"));
    }
    if let Some(w) = out {
        let t: String = o.text().lines().filter(|l| !l.is_empty()).map(|l| format!("{l}\n")).collect();
        if t != w {
            bad.push(format!("output: expected {:?}, got {:?}", w, t.chars().take(200).collect::<String>()));
        }
    }
    match code {
        Some(k) if o.code != Some(k) => bad.push(format!("status: expected {k}, got {:?}", o.code)),
        None if o.code == Some(0) => bad.push("status: expected a failure, got 0".into()),
        _ => {}
    }
    if !bad.is_empty() {
        c.violation(format!("{kind}:{l}"), format!("`{l}`: {}", bad.join("; ")), json!({"line": l}));
    }
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    std::fs::create_dir_all(sh.dir.join("sub")).unwrap();
    if let Some(r) = c.only.clone() {
        let l = r["line"].as_str().unwrap_or_default().to_string();
        let o = match l.strip_prefix("(read line by line) ") {
            Some(x) => sh.session(&x.lines().collect::<Vec<_>>()),
            None => sh.run(&l),
        };
        println!("{l:?}: {o:#?}");
        c.violation(format!("replay:{l}"), format!("ran {:?}, status {:?}; expected {}", o.cmds(), o.code, r["want"].as_str().unwrap_or("?")), r);
        return;
    }
    use Item::*;
    let full = [
        Ext(0), Ext(1), Ext(44), Kill, CdOk, CdBad, ExportOk, Pipe(0, 0), Pipe(1, 0), Pipe(0, 3), Pipe3(0, 0, 5),
        Pipe3(1, 2, 0), PipeCd(0), PipeCd(6), Cap(0), Cap(7), Subst,
    ];
    let core = [Ext(0), Ext(1), CdBad, CdOk, Pipe(1, 0), Pipe3(0, 0, 5), Cap(7)];
    let all_ops = [';', '&', '|'];
    lists(c, &mut sh, &full, 1, &all_ops, false);
    lists(c, &mut sh, &full, 2, &all_ops, false);
    lists(c, &mut sh, &[Ext(0), Ext(1), CdBad, Pipe(0, 3)], 2, &[';', '&', '|', 'n'], true);
    lists(c, &mut sh, &full, 2, &[], false);
    lists(c, &mut sh, if c.thorough() { &full } else { &core }, 3, &[], false);
    if c.thorough() {
        lists(c, &mut sh, &core, 4, &[], false);
        lists(c, &mut sh, &full, 3, &all_ops, false);
        lists(c, &mut sh, &[Ext(0), Ext(2), CdBad, Pipe(1, 0)], 4, &all_ops, false);
        lists(c, &mut sh, &[Ext(0), Ext(2)], 6, &all_ops, false);
    } else {
        lists(c, &mut sh, &core, 3, &all_ops, false);
        lists(c, &mut sh, &[Ext(0), Ext(2)], 4, &all_ops, false);
    }

    // pipelines: every length, every vector of exit codes, and data of sizes around the pipe's capacity
    let maxlen = if c.thorough() { 5 } else { 4 };
    for n in 1..=maxlen {
        for m in 0..(2usize.pow(n as u32)) {
            let codes: Vec<i32> = (0..n).map(|i| if m >> i & 1 == 1 { i as i32 + 3 } else { 0 }).collect();
            let l = codes.iter().enumerate().map(|(i, k)| format!("flt p{i} {k}")).collect::<Vec<_>>().join(" | ");
            let argvs: Vec<Vec<String>> = codes.iter().enumerate().map(|(i, k)| vec![format!("p{i}"), k.to_string()]).collect();
            let refs: Vec<Vec<&str>> = argvs.iter().map(|v| v.iter().map(|s| s.as_str()).collect()).collect();
            let want: Vec<(&str, &[&str])> = refs.iter().map(|v| ("flt", v.as_slice())).collect();
            let mut out = String::new();
            for i in 0..n {
                out = format!("p{i}({out})");
            }
            simple(c, &sh, "pipeline", &l, &want, Some(&format!("{out}\n")), Some(codes[n - 1]));
        }
    }
    for size in [0usize, 1, 4096, 65535, 65536, 65537, 262144] {
        let z = size.to_string();
        simple(c, &sh, "data", &format!("big {size} | cnt 0"), &[("big", &[&z]), ("cnt", &["0"])], Some(&format!("{size}\n")), Some(0));
        simple(c, &sh, "data", &format!("big {size} | cat | cnt c 3"), &[("big", &[&z]), ("cnt", &["c", "3"])], Some(&format!("{size}\n")), Some(3));
        simple(c, &sh, "data", &format!("big {size} | cat | cat | cnt c 0 && ex 4 t"), &[("big", &[&z]), ("cnt", &["c", "0"]), ("ex", &["4", "t"])], Some(&format!("{size}\n")), Some(4));
        simple(c, &sh, "data", &format!("rec $(big {size} | cnt c)"), &[("big", &[&z]), ("cnt", &["c"]), ("rec", &[&z])], None, Some(0));
        if size > 0 && size < 100000 {
            let x = "x".repeat(size);
            simple(c, &sh, "data", &format!("rec $(big {size})"), &[("big", &[&z]), ("rec", &[&x])], None, Some(0));
        }
    }

    // substitutions: the commands inside follow the same rules, and their output becomes arguments
    for (a, ac) in [("ex 0 a", 0), ("ex 1 a", 1), ("flt a 2", 2)] {
        for op in [";", "&&", "||"] {
            for b in ["src b \"q r\"", "src b \"\"", "src b q | flt c"] {
                for (open, close) in [("$(", ")"), ("(", ")")] {
                    let l = format!("rec x {open}{a} {op} {b}{close} y");
                    let mut cmds: Vec<(&str, Vec<&str>)> = vec![];
                    let mut text = String::new();
                    match a {
                        "ex 0 a" => cmds.push(("ex", vec!["0", "a"])),
                        "ex 1 a" => cmds.push(("ex", vec!["1", "a"])),
                        _ => {
                            cmds.push(("flt", vec!["a", "2"]));
                            text += "a()\n";
                        }
                    }
                    let go = op == ";" || (op == "&&") == (ac == 0);
                    if go {
                        match b {
                            "src b \"q r\"" => {
                                cmds.push(("src", vec!["b", "q r"]));
                                text += "q r\n";
                            }
                            "src b \"\"" => {
                                cmds.push(("src", vec!["b", ""]));
                                text += "\n";
                            }
                            _ => {
                                cmds.push(("src", vec!["b", "q"]));
                                cmds.push(("flt", vec!["c"]));
                                text += "c(q)\n";
                            }
                        }
                    }
                    let words: Vec<String> = if open == "$(" {
                        text.split_whitespace().map(|s| s.to_string()).collect()
                    } else {
                        text.trim_end_matches('\n').lines().map(|s| s.to_string()).collect()
                    };
                    let mut rec: Vec<&str> = vec!["x"];
                    rec.extend(words.iter().map(|s| s.as_str()));
                    rec.push("y");
                    cmds.push(("rec", rec));
                    let want: Vec<(&str, &[&str])> = cmds.iter().map(|(a, b)| (*a, b.as_slice())).collect();
                    simple(c, &sh, "subst", &l, &want, None, Some(0));
                }
            }
        }
    }
    // ... but only when and if the command they belong to runs
    simple(c, &sh, "subst-skipped", "ex 1 a && rec $(src B x)", &[("ex", &["1", "a"])], None, Some(1));
    simple(c, &sh, "subst-skipped", "ex 0 a || rec $(src B x)", &[("ex", &["0", "a"])], None, Some(0));
    simple(c, &sh, "subst-order", "ex 0 a ; rec $(src B x)", &[("ex", &["0", "a"]), ("src", &["B", "x"]), ("rec", &["x"])], None, Some(0));

    // an unknown command or a line that is not a command: nothing of the line runs
    for l in [
        "nosuchcmd", "ex 0 a ; nosuchcmd", "nosuchcmd ; ex 0 a", "ex 0 a && nosuchcmd", "ex 1 a && nosuchcmd", "ex 0 a | nosuchcmd", "nosuchcmd | flt a",
        "ex 0 a 'b", "ex 0 a \"b", "ex 0 a } ; ex 0 b", "ex 0 a ) ; ex 0 b", "ex 0 a 2>&1", "ex 0 a ; ex 0 \"b", "ex 0 a && ex 0 b ]", "ex 0 `src A x`",
        "ex 0 \"a $HOME b\"", "ex 0 a $(src B x", "ex 0 a > f ; ex 0 )", "ex 0 a | | ex 0 b",
    ] {
        simple(c, &sh, "refused", l, &[], None, None);
    }
    // spacing and empty commands
    for l in ["ex 0 a;", "ex 0 a ;", "  ex 0 a", "ex  0\ta  ", "ex 0 a\n", "ex 0 a &&", "ex 0 a ;;"] {
        simple(c, &sh, "spacing", l, &[("ex", &["0", "a"])], None, Some(0));
    }
    for l in ["ex 0 a;;ex 2 b", "ex 0 a\nex 2 b", "ex 0 a\n\n  ex 2 b\n", "ex 1 a||ex 2 b", "ex 0 a&&ex 2 b", "ex 0 a &&ex 2 b", "ex 0 a\t&&\tex 2 b"] {
        let first: &[&str] = if l.starts_with("ex 1") { &["1", "a"] } else { &["0", "a"] };
        simple(c, &sh, "spacing", l, &[("ex", first), ("ex", &["2", "b"])], None, Some(2));
    }
}

pub fn spec() -> Spec {
    Spec {
        id: "C02",
        level: "model_checking",
        rule: "every line of the bounded list/pipeline/substitution grammar is run in the real shell; commands run (argv, directory, standard input, order), output and status must equal those of the reference interpreter",
        assumptions: &["non-interactive shell (-c)", "stand-in commands read their input to the end, so a pipeline's log order is its data flow order"],
        shards: 8,
        hang_s: 60,
        run,
    }
}
