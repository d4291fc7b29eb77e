//! C01: nothing the safety guard must ask about runs without a confirmation, wherever it stands on
//! the line. Every dangerous form in every context of a bounded grammar is given to the real shell
//! (with recording stand-ins as the only commands on PATH) and to the guard's decision functions.
use crate::bb::Sh;
use crate::common::*;
use doge_shell::safety::{SafetyGuard, SafetyLevel, SafetyResult};
use serde_json::json;

#[path = "words_util.rs"]
mod wu;

/// The forms that need a confirmation at the normal level.
fn dangerous() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in ["dd if=a", "mkfs x", "format x", "reboot", "shutdown now", "poweroff", "mkswap x", "dd", "mkfs -t ext4 x"] {
        v.push(c.into());
    }
    for f in [
        "-r x", "-R x", "-rf x", "-fr x", "-Rf x", "-fR x", "-r -f x", "-f -r x", "-f -R x", "--recursive x", "-v -r x", "-vr x", "-rv x", "-vrf x", "-rfv x", "-fvr x", "-i -r x",
        "x -r", "x y -rf", "--recursive --force x", "--force --recursive x", "-rf /", "-rf x y", "--no-preserve-root -rf x", "-dr x",
    ] {
        v.push(format!("rm {f}"));
    }
    for f in [
        "push --force", "push -f", "push --force-with-lease", "push origin main --force", "push -f origin main", "push origin -f", "push --force origin", "reset --hard", "reset --hard x", "reset x --hard",
        "clean -fdx", "clean -x", "clean -f -x", "clean -fx", "-C d push --force", "-c a=b reset --hard", "--no-pager push -f", "push --force-with-lease=main", "push -uf origin",
    ] {
        v.push(format!("git {f}"));
    }
    for f in ["-R 777 x", "--recursive 777 x", "-Rv 777 x", "-vR 777 x", "777 x -R", "-v -R 777 x"] {
        v.push(format!("chmod {f}"));
        v.push(format!("chown {f}"));
    }
    for f in ["-r -f a b", "-rf a b", "-fr a b", "-R -f a b", "-Rf a b", "--recursive --force a b", "-f --recursive a b", "-r --force a b", "a b -rf"] {
        v.push(format!("cp {f}"));
    }
    for f in ["-d x u", "--data x u", "-F a=b u", "--form a=b u", "-T f u", "--upload-file f u", "u -d x", "-s -d x u", "-dx u", "--data-binary x u", "--data=x u", "-Tf u", "-s -T f u"] {
        v.push(format!("curl {f}"));
    }
    for f in ["--post-data x u", "--post-file f u", "--post-data=x u", "--post-file=f u", "u --post-file f", "-q --post-data x u"] {
        v.push(format!("wget {f}"));
    }
    for r in ["cat", "less", "more", "head", "tail", "grep", "awk", "sed"] {
        for f in ["h/.ssh/config", "id_rsa", "k/id_ed25519", "h/.aws/credentials", "h/.config/gcloud/x", "h/.azure/x", "/etc/shadow", "/etc/passwd", ".env", "p/.env.local", "h/.bash_history", ".zsh_history"] {
            v.push(format!("{r} {f}"));
            if f == ".env" || f == "id_rsa" {
                v.push(format!("{r} x y {f}"));
                v.push(format!("{r} -n 1 {f}"));
            }
        }
    }
    v
}

fn harmless() -> Vec<&'static str> {
    vec![
        "rm x", "rm -f x", "rm -v x y", "rm rf", "git push", "git push origin main", "git status", "git reset --soft x", "git reset x", "git clean -fd", "chmod 644 x", "chown a x", "cp -r a b", "cp -f a b",
        "cp a b", "mv a b", "mv -f a b", "curl u", "curl -s u", "wget u", "wget -q u", "cat x", "head -n 1 x", "grep a x", "sed s x", "rec a", "rec rm -rf x", "rec dd", "sh x", "bash x", "git log --stat", "tail x",
    ]
}

const FETCH: [&str; 4] = ["curl", "wget", "fetch", "scp"];
const EXEC: [&str; 8] = ["sh", "bash", "zsh", "fish", "python", "perl", "ruby", "sudo"];
const NAMES: [&str; 36] = [
    "rm", "dd", "mkfs", "format", "reboot", "shutdown", "poweroff", "mkswap", "git", "chmod", "chown", "cp", "mv", "curl", "wget", "cat", "less", "more", "head", "tail", "grep", "awk", "sed", "fetch", "scp", "sh",
    "bash", "zsh", "fish", "python", "perl", "ruby", "sudo", "apt", "npm", "nopty2",
];

/// Lines that contain command `t` in every position. The flag says whether commands of the line
/// that come before it in a substitution of their own may still run (they are evaluated apart).
fn contexts(t: &str) -> Vec<String> {
    let mut v = vec![
        t.to_string(),
        format!("rec a ; {t}"),
        format!("{t} ; rec a"),
        format!("rec a && {t}"),
        format!("ex 1 a || {t}"),
        format!("{t} && rec a"),
        format!("{t} || rec a"),
        format!("rec a;rec b;{t}"),
        format!("rec a\n{t}"),
        format!("rec a | {t}"),
        format!("{t} | rec a"),
        format!("rec a | rec b | {t}"),
        format!("rec a | {t} | rec b"),
        format!("rec a ; rec b | {t}"),
        format!("{t} |>"),
        format!("{t} > out"),
        format!("{t} 2> out"),
        format!("{t} < in"),
        format!("{t} &"),
        format!("rec a & {t}"),
        format!("nopty {t}"),
        format!("rec a | nopty {t}"),
        format!("  {t}  "),
    ];
    for (o, c) in [("$(", ")"), ("(", ")")] {
        v.push(format!("rec {o}{t}{c}"));
        v.push(format!("rec x {o}rec a | {t}{c}"));
        v.push(format!("rec {o}{t} | rec a{c} y"));
        v.push(format!("rec {o}rec a ; {t}{c}"));
        v.push(format!("rec {o}rec {o}{t}{c}{c}"));
        v.push(format!("rec a | rec {o}{t}{c}"));
    }
    v
}

/// The same command with its words written in other ways.
fn spellings(t: &str, bin: &str) -> Vec<String> {
    let ws: Vec<&str> = t.split(' ').collect();
    let all = |f: &dyn Fn(&str) -> String| ws.iter().map(|w| f(w)).collect::<Vec<_>>().join(" ");
    let esc1 = |w: &str| format!("\\{w}");
    let mut v = vec![
        format!("{} {}", wu::squote(ws[0]), ws[1..].join(" ")),
        format!("{} {}", wu::dquote(ws[0]), ws[1..].join(" ")),
        format!("{} {}", esc1(ws[0]), ws[1..].join(" ")),
        all(&|w| wu::squote(w)),
        all(&|w| wu::dquote(w)),
        all(&esc1),
        format!("{bin}/{t}"),
        ws.join("   "),
        ws.join("\t"),
    ];
    for i in 1..ws.len() {
        let mut x: Vec<String> = ws.iter().map(|s| s.to_string()).collect();
        x[i] = wu::squote(ws[i]);
        v.push(x.join(" "));
        x[i] = wu::dquote(ws[i]);
        v.push(x.join(" "));
    }
    if ws.iter().all(|w| !w.contains(['=', '{', '/'])) && ws.len() > 1 {
        v.push(format!("{} {{{}}}", ws[0], if ws.len() > 2 { ws[1..].join(",") } else { format!("{},z", ws[1]) }));
    }
    v
}

/// What the line ran: without the questions the shell itself asks git.
fn line_cmds(o: &crate::bb::Out) -> Vec<(String, Vec<String>)> {
    let mut v = o.cmds();
    v.retain(|(c, a)| !(c == "git" && a.iter().any(|x| x == "rev-parse" || x == "--porcelain=v2" || x == "branch")));
    v
}

fn case(c: &mut Ctx, sh: &Sh, kind: &str, line: &str, may_run: bool, want: Option<&[(&str, Vec<&str>)]>) {
    if !c.mine() {
        return;
    }
    c.begin(line);
    let o = sh.run(line);
    c.eval((kind, line, &sh.env), true);
    c.transitions += 1;
    c.state((kind, may_run, o.code));
    let mut bad = None;
    let ran = line_cmds(&o);
    if o.timed_out {
        c.hangs += 1;
        bad = Some("did not finish".to_string());
    } else if !may_run && (!ran.is_empty() || o.code == Some(0)) {
        bad = Some(format!("must not run unconfirmed, but ran {ran:?} (status {:?})", o.code));
    } else if let Some(w) = want {
        let w: Vec<(String, Vec<String>)> = w.iter().map(|(a, b)| (a.to_string(), b.iter().map(|s| s.to_string()).collect())).collect();
        if ran != w {
            bad = Some(format!("should run {w:?}, ran {ran:?} (status {:?}, {:?})", o.code, o.stderr.chars().take(100).collect::<String>()));
        }
    }
    match bad {
        Some(m) => c.violation(format!("{kind}:{line}"), format!("`{line}` ({kind}): {m}"), json!({"line": line, "kind": kind, "env": sh.env})),
        None => c.sample(json!({"line": line, "kind": kind, "ran": ran.len(), "status": o.code})),
    }
}

fn lines(c: &mut Ctx, sh: &mut Sh) {
    let bin = sh.bin.display().to_string();
    let all = dangerous();
    // every form in the plain contexts; a few forms in every context
    let few = ["rm -rf x", "dd if=a", "git push --force", "cat .env", "curl -d x u", "chmod -R 777 x"];
    for t in &all {
        if c.thorough() || few.contains(&t.as_str()) {
            for l in contexts(t) {
                case(c, sh, "danger", &l, false, None);
            }
        } else {
            for l in [t.clone(), format!("rec a | {t}"), format!("rec $({t})"), format!("rec a && {t} | rec b")] {
                case(c, sh, "danger", &l, false, None);
            }
        }
    }
    for t in &few {
        for s in spellings(t, &bin) {
            case(c, sh, "spelling", &s, false, None);
            case(c, sh, "spelling", &format!("rec a | {s}"), false, None);
            if c.thorough() {
                for l in contexts(&s) {
                    case(c, sh, "spelling", &l, false, None);
                }
            }
        }
        if c.thorough() {
            for u in &few {
                for l in [format!("{t} ; {u}"), format!("rec $({t}) $({u})"), format!("{t} | {u}")] {
                    case(c, sh, "danger", &l, false, None);
                }
            }
        }
    }
    if c.thorough() {
        for t in &all {
            for s in spellings(t, &bin) {
                case(c, sh, "spelling", &s, false, None);
            }
        }
    }
    // through variables and aliases
    sh.env = vec![("CMD".into(), "rm".into()), ("FLAG".into(), "-rf".into()), ("SECRET".into(), "id_rsa".into())];
    for l in ["$CMD -rf x", "rm $FLAG x", "$CMD $FLAG x", "cat $SECRET", "rec a | $CMD $FLAG x", "rec $($CMD -rf x)", "rec a ; rm $FLAG x"] {
        if l.starts_with("rec $(") {
            continue; // variables are not expanded inside $( )
        }
        case(c, sh, "variable", l, false, None);
    }
    sh.env.clear();
    sh.config("(alias \"dz\" \"rm -rf x\")\n(alias \"rmm\" \"rm\")\n(alias \"both\" \"rec a | rm -rf x\")\n(alias \"seq\" \"rec a ; dd if=a\")\n(alias \"safe\" \"rec a\")");
    for l in ["dz", "rmm -rf x", "rec a | dz", "rec a ; rmm -r x", "both", "seq", "rec $(dz)", "dz &", "safe | dz", "safe ; rmm -rf x", "rec a && both"] {
        case(c, sh, "alias", l, false, None);
    }
    case(c, sh, "alias", "safe", true, Some(&[("rec", vec!["a"])]));
    case(c, sh, "alias", "rmm x", true, Some(&[("rm", vec!["x"])]));
    sh.config("");
    // fetching something and running it
    for f in FETCH {
        for e in EXEC {
            for l in [
                format!("{f} u | {e}"), format!("{f} u | {e} -s x"), format!("rec a ; {f} u | {e}"), format!("rec $({f} u | {e})"), format!("rec a && {f} -q u | {e} | rec b"), format!("\"{f}\" u | '{e}'"),
                format!("{bin}/{f} u | {bin}/{e}"),
            ] {
                case(c, sh, "fetch", &l, false, None);
            }
        }
        case(c, sh, "fetch-only", &format!("{f} u > o"), true, Some(&[(f, vec!["u"])]));
    }
    // what needs no confirmation runs as it is
    for t in harmless() {
        let ws: Vec<&str> = t.split(' ').collect();
        let cmd = (ws[0], ws[1..].to_vec());
        case(c, sh, "harmless", t, true, Some(&[cmd.clone()]));
        case(c, sh, "harmless", &format!("rec a ; {t}"), true, Some(&[("rec", vec!["a"]), cmd.clone()]));
        case(c, sh, "harmless", &format!("rec $({t}) b"), true, Some(&[cmd.clone(), ("rec", vec!["b"])]));
    }
}

fn levels(c: &mut Ctx, sh: &mut Sh) {
    let few: Vec<String> = dangerous().into_iter().step_by(if c.thorough() { 1 } else { 9 }).collect();
    // loose: everything runs
    sh.config("(safety-level \"loose\")");
    for t in few.iter().map(|s| s.as_str()).chain(harmless()) {
        let ws: Vec<&str> = t.split(' ').collect();
        case(c, sh, "loose", t, true, Some(&[(ws[0], ws[1..].to_vec())]));
    }
    // strict: nothing runs
    for cfg in ["(safety-level \"strict\")", "(safety-level \"STRICT\")", "(safety-level \"loose\") (safety-level \"strict\")"] {
        sh.config(cfg);
        for t in few.iter().map(|s| s.as_str()).chain(harmless()) {
            case(c, sh, "strict", t, false, None);
        }
        for l in contexts("rec q") {
            case(c, sh, "strict", &l, false, None);
        }
    }
    // strict with a list of allowed lines
    sh.config("(safety-level \"strict\") (chat-execute-add \"rec a\" \"rec b\" \"rm -rf x\")");
    for (l, ok) in [
        ("rec a", true), ("rec b", true), ("rm -rf x", true), ("rec a ;rec b", true), ("rec a b", false), ("rec", false), ("rec c", false), ("rm -rf y", false), ("rec a ; rec c", false), ("rec c ; rec a", false),
        ("rec a | rec c", false), ("rec c | rec a", false), ("rec a | rm -rf y", false), ("rec a && rm -rf z", false), ("rec aa", false), ("rm -rf", false), ("rec a | rec b | rec c", false), ("dd", false),
    ] {
        case(c, sh, "strict-allow", l, ok, None);
    }
    // normal with a list: exactly the line listed is let through
    sh.config("(chat-execute-add \"rm -rf x\" \"dd if=a\" \"rm\" \"git\")");
    for (l, ok) in [
        ("rm -rf x", true), ("dd if=a", true), ("rm -rf y", false), ("rm -rf x y", false), ("dd if=b", false), ("rm -rf", false), ("rec a | rm -rf x y", false), ("rm -rf x ; rm -rf y", false), ("dd if=a | rm -rf y", false),
        ("rm -rf y ; rm -rf x", false), ("rec $(rm -rf y)", false), ("git push --force", false), ("rm -rf x && dd if=c", false), ("dd", false),
    ] {
        case(c, sh, "normal-allow", l, ok, None);
    }
    sh.config("(chat-execute-add \"rm -rf x\") (chat-execute-clear)");
    case(c, sh, "cleared", "rm -rf x", false, None);
    sh.config("");
}

/// Confirmations typed at a terminal: runs only when (and as long as) confirmed.
fn confirmations(c: &mut Ctx, sh: &mut Sh) {
    // a session of lines, the keys typed, the commands that may run
    let n = if c.thorough() { 4 } else { 3 };
    let lines = ["rm -rf x", "rm -rf y", "rec a", "rm -rf x | flt b"];
    let k = lines.len() * 3;
    for len in 1..=n {
        for code in 0..k.pow(len as u32) {
            if !c.mine() {
                continue;
            }
            let mut x = code;
            let mut input = vec![];
            let mut keys = String::new();
            let mut want: Vec<String> = vec![];
            let mut always: Vec<&str> = vec![];
            for _ in 0..len {
                let l = lines[x % lines.len()];
                let key = ['y', 'n', 'a'][x / lines.len() % 3];
                x /= k;
                input.push(l);
                let asks = l.contains("rm") && !always.contains(&l);
                if asks {
                    keys.push(key);
                    if key == 'a' {
                        always.push(l);
                    }
                }
                if !asks || key != 'n' {
                    for part in l.split(" | ") {
                        want.push(part.to_string());
                    }
                }
            }
            c.begin(&format!("{input:?} {keys}"));
            sh.keys = Some(keys.clone());
            let o = sh.session(&input);
            sh.keys = None;
            c.eval((&input, &keys), true);
            c.transitions += len as u64;
            let mut got: Vec<String> = line_cmds(&o).iter().map(|(a, b)| format!("{a} {}", b.join(" "))).collect();
            let asked = o.stdout.matches("Proceed? [y/N").count();
            let ok_count = asked == keys.len();
            got.sort();
            want.sort();
            if o.timed_out {
                c.hangs += 1;
            }
            if got != want || !ok_count || o.timed_out {
                c.violation(format!("session:{input:?}:{keys}"), format!("lines {input:?}, keys {keys:?}: ran {got:?}, expected {want:?}; asked {asked} times"), json!({"session": input, "keys": keys}));
            }
        }
    }
}

/// The decisions used for Lisp commands, AI suggestions and MCP tools.
fn decisions(c: &mut Ctx) {
    let g = SafetyGuard::new();
    let levels = [SafetyLevel::Loose, SafetyLevel::Normal, SafetyLevel::Strict];
    let dl = dangerous();
    let mut texts: Vec<(String, bool)> = dl.iter().map(|s| (s.clone(), true)).collect();
    texts.extend(harmless().into_iter().map(|s| (s.to_string(), false)));
    let allow_sets = |t: &str| -> Vec<(Vec<String>, bool)> {
        let head = t.split(' ').next().unwrap().to_string();
        vec![(vec![], false), (vec![t.to_string()], true), (vec![head.clone()], true), (vec![format!("{t} more"), format!("x{t}"), format!("{head}x")], false), (vec!["ls".into(), t.to_string()], true)]
    };
    for (t, d) in &texts {
        let ws: Vec<String> = t.split(' ').map(|s| s.to_string()).collect();
        for lv in &levels {
            for (allow, listed) in allow_sets(t) {
                if !c.mine() {
                    continue;
                }
                let must_ask = !listed && match lv {
                    SafetyLevel::Loose => false,
                    SafetyLevel::Normal => *d,
                    SafetyLevel::Strict => true,
                };
                for cmd in [ws[0].clone(), format!("/usr/bin/{}", ws[0]), format!("./{}", ws[0])] {
                    if cmd.contains('/') && listed {
                        continue;
                    }
                    let r = g.check_command(lv, &cmd, &ws[1..], &allow);
                    c.eval(("cmd", &cmd, t, format!("{lv:?}"), &allow), true);
                    if (r == SafetyResult::Allowed) == must_ask {
                        c.violation(format!("check_command:{cmd}:{t}:{lv:?}:{allow:?}"), format!("check_command({lv:?}, {cmd}, {:?}, {allow:?}) = {r:?}", &ws[1..]), json!({"api": true}));
                    }
                }
                // the same through a command-running MCP tool, alone and within a longer line
                for tool in ["bash", "run_command", "execute_command", "execute", "terminal"] {
                    for (line, in_list) in [(t.clone(), listed), (format!("ls; {t}"), false), (format!("ls && {t}"), false), (format!("ls | {t}"), false), (format!("echo $({t})"), false), (format!("({t})"), false), (format!("{t} ; ls"), false), (format!("ls\n{t}"), false)] {
                        if line != *t && (listed || !*d) {
                            continue;
                        }
                        let must = match lv {
                            SafetyLevel::Loose => false,
                            SafetyLevel::Normal => *d && !in_list,
                            SafetyLevel::Strict => !in_list,
                        };
                        let r = g.check_mcp_tool(tool, &json!({"command": line}).to_string(), lv, &allow);
                        c.eval(("mcp", tool, &line, format!("{lv:?}"), &allow), true);
                        if (r == SafetyResult::Allowed) == must {
                            c.violation(format!("mcp:{tool}:{line}:{lv:?}:{allow:?}"), format!("check_mcp_tool({tool}, {line:?}, {lv:?}, {allow:?}) = {r:?}"), json!({"api": true}));
                        }
                    }
                }
            }
        }
    }
    for f in FETCH {
        for e in EXEC {
            let r = g.check_mcp_tool("bash", &json!({"command": format!("{f} u | {e}")}).to_string(), &SafetyLevel::Normal, &[]);
            c.eval(("mcp-fetch", f, e), true);
            if r == SafetyResult::Allowed {
                c.violation(format!("mcp-fetch:{f}:{e}"), format!("check_mcp_tool(bash, {f} u | {e}) allowed"), json!({"api": true}));
            }
        }
    }
    // other tools: names that say they change something always ask, names that only read do not
    for tool in ["delete_file", "write_file", "edit", "update_x", "remove", "create_issue", "execute_sql", "run_tests", "apply_patch", "install", "set_value", "post_message", "put_object", "push", "kill_process", "start", "stop", "restart", "connect", "submit_form", "WriteFile", "get_and_delete", "read_write", "list_and_remove", "frobnicate", "bash", "terminal", "execute"] {
        for args in ["{}", "", "null", "{\"command\": 3}", "{\"command\": \"\"}", "{\"command\": \" ; \"}", "[]", "{\"path\":\"a\"}"] {
            for lv in &levels {
                let entry = SafetyGuard::mcp_allowlist_entry(tool, args);
                for (allow, listed) in [(vec![], false), (vec![entry.clone()], true), (vec![format!("mcp:{tool}")], true), (vec![format!("mcp:{tool}x"), tool.to_string(), format!("mcp:x{tool}:{args}")], false)] {
                    let r = g.check_mcp_tool(tool, args, lv, &allow);
                    let must = *lv != SafetyLevel::Loose && !listed;
                    c.eval(("tool", tool, args, format!("{lv:?}"), &allow), true);
                    if (r == SafetyResult::Allowed) == must {
                        c.violation(format!("tool:{tool}:{args}:{lv:?}:{allow:?}"), format!("check_mcp_tool({tool}, {args}, {lv:?}, {allow:?}) = {r:?}"), json!({"api": true}));
                    }
                }
            }
        }
    }
    // every mix of a verb that changes something with one that reads, in every casing
    let reads = ["list", "get", "read", "search", "find", "show", "status", "describe", "fetch", "query", "view"];
    let writes = [
        "write", "edit", "update", "delete", "remove", "create", "execute", "run", "apply", "install", "set", "post", "put", "patch", "push", "kill", "start", "stop", "restart", "connect", "disconnect", "submit",
    ];
    let cap = |w: &str| format!("{}{}", w[..1].to_uppercase(), &w[1..]);
    for w in writes {
        for r in reads {
            for t in [
                format!("{r}_{w}"), format!("{w}_{r}"), format!("{r}{}", cap(w)), format!("{w}{}", cap(r)), format!("{}{}", cap(r), cap(w)), format!("{}_{}", r.to_uppercase(), w.to_uppercase()), format!("{r}-and-{w}-x"),
                format!("{r}_{}", cap(w)),
            ] {
                for lv in &levels {
                    let res = g.check_mcp_tool(&t, "{}", lv, &[]);
                    c.eval(("tool-mix", &t, format!("{lv:?}")), true);
                    if (res == SafetyResult::Allowed) != (*lv == SafetyLevel::Loose) {
                        c.violation(format!("tool:{t}:{lv:?}"), format!("check_mcp_tool({t}, {lv:?}) = {res:?}"), json!({"api": true}));
                    }
                }
            }
        }
    }
    for tool in ["list_files", "get_x", "read_file", "search", "find", "show", "status", "describe", "fetch_page", "query_db", "view"] {
        for lv in &levels {
            let r = g.check_mcp_tool(tool, "{\"path\":\"a\"}", lv, &[]);
            c.eval(("read", tool, format!("{lv:?}")), true);
            if (r == SafetyResult::Allowed) == (*lv == SafetyLevel::Strict) {
                c.violation(format!("tool:{tool}:{lv:?}"), format!("check_mcp_tool({tool}, {lv:?}) = {r:?}"), json!({"api": true}));
            }
        }
    }
    // text for the AI: any length limit, multi-byte text
    let mut texts: Vec<String> = vec![];
    wu::words(&['a', 'é', '漢', '\u{200b}', '\u{7}', '\n'], 4, &mut |w| texts.push(w.to_string()));
    for t in texts {
        for m in 0..14 {
            if !c.mine() {
                continue;
            }
            c.begin(&format!("sanitize {t:?} {m}"));
            c.eval(("sanitize", &t, m), true);
            let t2 = t.clone();
            match c.guard(move || SafetyGuard::sanitize_ai_input(&t2, m)) {
                Err(e) => c.violation(format!("sanitize:{t:?}:{m}"), format!("sanitize_ai_input({t:?}, {m}) panics: {e}"), json!({"api": true})),
                Ok(s) => {
                    let clean: String = t.chars().filter(|x| *x == '\n' || !(x.is_control() || *x == '\u{200b}')).collect();
                    let ok = if clean.len() <= m { s == clean } else { s.strip_suffix("...(truncated)").is_some_and(|p| p.len() <= m && clean.starts_with(p) && p.len() + 4 > m) };
                    if !ok {
                        c.violation(format!("sanitize:{t:?}:{m}"), format!("sanitize_ai_input({t:?}, {m}) = {s:?}"), json!({"api": true}));
                    }
                }
            }
        }
    }
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    sh.only_stubs = true;
    for n in NAMES {
        sh.stub(n);
    }
    std::fs::write(sh.dir.join("in"), "x").unwrap();
    if let Some(r) = c.only.clone() {
        if let Some(l) = r["line"].as_str() {
            let o = sh.run(l);
            println!("{l:?} ({}): {o:#?}", r["kind"]);
            c.violation(format!("replay:{l}"), format!("ran {:?}, status {:?} (levels, lists and aliases of the case are described in its message)", o.cmds(), o.code), r);
        } else if let Some(s) = r["session"].as_array() {
            let ls: Vec<&str> = s.iter().map(|x| x.as_str().unwrap()).collect();
            sh.keys = r["keys"].as_str().map(|s| s.to_string());
            let o = sh.session(&ls);
            println!("{o:#?}");
            c.violation("replay:session", format!("ran {:?}", o.cmds()), r);
        } else {
            decisions(c);
        }
        return;
    }
    lines(c, &mut sh);
    levels(c, &mut sh);
    confirmations(c, &mut sh);
    decisions(c);
}

pub fn spec() -> Spec {
    Spec {
        id: "C01",
        level: "exploration",
        rule: "all dangerous forms (230) x positions on a line (4 each; all 35 for six forms, for all in thorough) x spellings x {normal, loose, strict} x allow lists; all fetch-and-run pairs; every sequence of up to 3 (4) lines and confirmation keys on a terminal; the decision functions on every form, level and list",
        assumptions: &["dsh -c with recording stand-ins as the only commands on PATH; confirmations are typed on a pseudo-terminal", "what is dangerous is the list documented in the guard: the check is that position and spelling do not matter"],
        shards: 8,
        hang_s: 120,
        run,
    }
}
