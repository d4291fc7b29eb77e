//! C04: each argument reaches its command exactly as written. Every word over an alphabet of the
//! characters that mean something to the shell, in every way of writing it (escaped, quoted,
//! in a variable, as a file name, below a home directory), is passed to a recording command.
use crate::bb::Sh;
use crate::common::*;
use serde_json::json;

#[path = "words_util.rs"]
mod wu;
use wu::*;

/// Run a line of `rec` arguments; on a mismatch, run each argument alone to find the guilty ones.
struct Batch {
    kind: &'static str,
    forms: Vec<(String, Vec<String>)>, // source text, expected words
    max: usize,
}

fn go(c: &mut Ctx, sh: &Sh, kind: &str, line: &str, want: &[(String, Vec<String>)]) -> bool {
    let o = sh.run(line);
    if o.timed_out {
        c.hangs += 1;
    }
    let _ = kind;
    !o.timed_out && o.code == Some(0) && o.cmds() == want
}

impl Batch {
    fn new(kind: &'static str, max: usize) -> Batch {
        Batch { kind, forms: vec![], max }
    }
    fn line(kind: &str, forms: &[(String, Vec<String>)], home: &str) -> (String, Vec<(String, Vec<String>)>) {
        let src: Vec<&str> = forms.iter().map(|f| f.0.as_str()).collect();
        let want: Vec<String> = forms.iter().flat_map(|f| f.1.iter().cloned()).collect();
        let rec = |w: Vec<String>| ("rec".to_string(), w);
        if kind.ends_with("+home") {
            let mut w = want;
            w.push(home.to_string());
            (format!("rec {} ~", src.join(" ")), vec![rec(w)])
        } else if kind.ends_with("+pipe") {
            (format!("rec {0} | rec {0}", src.join(" ")), vec![rec(want.clone()), rec(want)])
        } else if kind.ends_with("+list") {
            (format!("ex 1 a || rec {}", src.join(" ")), vec![("ex".into(), vec!["1".into(), "a".into()]), rec(want)])
        } else if kind.ends_with("+subst") {
            (format!("rec x $(rec {})", src.join(" ")), vec![rec(want), rec(vec!["x".into()])])
        } else if kind.ends_with("+capture") {
            (format!("rec {} |>", src.join(" ")), vec![rec(want)])
        } else {
            (format!("rec {}", src.join(" ")), vec![rec(want)])
        }
    }
    fn push(&mut self, c: &mut Ctx, sh: &Sh, src: String, want: Vec<String>) {
        self.forms.push((src, want));
        if self.forms.len() >= self.max {
            self.flush(c, sh);
        }
    }
    fn flush(&mut self, c: &mut Ctx, sh: &Sh) {
        let forms = std::mem::take(&mut self.forms);
        if forms.is_empty() || !c.mine() {
            return;
        }
        let home = sh.home.display().to_string();
        let (line, want) = Self::line(self.kind, &forms, &home);
        c.begin(&line);
        for f in &forms {
            c.eval((self.kind, &f.0), true);
        }
        c.transitions += want.len() as u64;
        c.state((&line, &want));
        if go(c, sh, self.kind, &line, &want) {
            c.sample(json!({"line": line, "argv": want}));
            return;
        }
        let mut single = false;
        for f in &forms {
            let (line, want) = Self::line(self.kind, std::slice::from_ref(f), &home);
            if !go(c, sh, self.kind, &line, &want) {
                single = true;
                let o = sh.run(&line);
                c.violation(
                    format!("{}:{}", self.kind, f.0),
                    format!("`{line}`: expected {want:?}, got {:?} (status {:?}, {:?})", o.cmds(), o.code, o.stderr.chars().take(150).collect::<String>()),
                    json!({"line": line, "want": format!("{want:?}"), "env": sh.env}),
                );
            }
            if c.hangs >= 3 {
                return;
            }
        }
        if !single {
            let o = sh.run(&line);
            if o.cmds() != want || o.code != Some(0) {
                c.violation(
                    format!("{}:{line}", self.kind),
                    format!("`{line}`: expected {want:?}, got {:?} (status {:?})", o.cmds(), o.code),
                    json!({"line": line, "want": format!("{want:?}"), "env": sh.env}),
                );
            }
        }
    }
}

fn quoting(c: &mut Ctx, sh: &mut Sh, sigma: &[char], n: usize, all_contexts: bool) {
    let kinds: &[&'static str] = if all_contexts {
        &["esc", "esc+home", "esc+pipe", "esc+list", "esc+subst", "esc+capture", "sq", "sq+home", "sq+pipe", "sq+subst", "dq", "dq+home", "dq+pipe", "dq+subst"]
    } else {
        &["esc", "esc+home", "sq", "sq+home", "dq", "dq+home"]
    };
    for kind in kinds {
        let mut b = Batch::new(kind, 24);
        words(sigma, n, &mut |w| {
            // a line is one line: an escaped newline is left out
            let src = match kind.split('+').next().unwrap() {
                "esc" => esc(w),
                "sq" => squote(w),
                _ => dquote(w),
            };
            b.push(c, sh, src, vec![w.to_string()]);
        });
        b.flush(c, sh);
    }
    // variables: the value is one argument, whatever it holds
    for kind in ["var", "var+home", "var+pipe"] {
        let mut pending: Vec<String> = vec![];
        let mut batches: Vec<Vec<String>> = vec![];
        words(sigma, n, &mut |w| {
            pending.push(w.to_string());
            if pending.len() == 24 {
                batches.push(std::mem::take(&mut pending));
            }
        });
        batches.push(pending);
        for ws in batches {
            sh.env = ws.iter().enumerate().map(|(i, w)| (format!("V{i}"), w.clone())).collect();
            let mut b = Batch::new(if kind == "var" { "var" } else if kind == "var+home" { "var+home" } else { "var+pipe" }, 1000);
            for (i, w) in ws.iter().enumerate() {
                b.push(c, sh, format!("$V{i}"), vec![w.clone()]);
            }
            b.flush(c, sh);
            sh.env.clear();
        }
    }
    // file names found by a wildcard
    let mut pending: Vec<String> = vec![];
    let mut batches: Vec<Vec<String>> = vec![];
    words(sigma, n, &mut |w| {
        if !w.contains('/') && w != "." && w != ".." {
            pending.push(w.to_string());
        }
        if pending.len() == 12 {
            batches.push(std::mem::take(&mut pending));
        }
    });
    batches.push(pending);
    for mut ws in batches {
        if ws.is_empty() || !c.mine() {
            continue;
        }
        let d = sh.dir.join("globs");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("d e")).unwrap();
        for w in &ws {
            std::fs::write(d.join("d e").join(w), b"").unwrap();
        }
        ws.sort();
        for (line, pre) in [("rec globs/d\\ e/*", "globs/d e/"), ("rec globs/*/*", "globs/d e/")] {
            let want = vec![("rec".to_string(), ws.iter().map(|w| format!("{pre}{w}")).collect::<Vec<_>>())];
            c.begin(&format!("{line} {ws:?}"));
            let o = sh.run(line);
            c.eval((line, &ws), true);
            c.transitions += ws.len() as u64;
            if o.timed_out {
                c.hangs += 1;
            }
            if o.cmds() != want {
                c.violation(
                    format!("files:{line}:{ws:?}"),
                    format!("`{line}` with files {ws:?}: got {:?} (status {:?})", o.cmds(), o.code),
                    json!({"line": line, "files": ws}),
                );
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    }
}

// ---- braces ----
#[derive(Clone, Debug)]
enum El {
    Lit(&'static str),
    Group(Vec<Vec<El>>),
}
fn btext(s: &[El]) -> String {
    s.iter()
        .map(|e| match e {
            El::Lit(l) => l.to_string(),
            El::Group(a) => format!("{{{}}}", a.iter().map(|x| btext(x)).collect::<Vec<_>>().join(",")),
        })
        .collect()
}
fn bexpand(s: &[El]) -> Vec<String> {
    let mut out = vec![String::new()];
    for e in s {
        let alts: Vec<String> = match e {
            El::Lit(l) => vec![l.to_string()],
            El::Group(a) => a.iter().flat_map(|x| bexpand(x)).collect(),
        };
        out = out.iter().flat_map(|p| alts.iter().map(move |a| format!("{p}{a}"))).collect();
    }
    out
}
fn bseqs(depth: usize, len: usize) -> Vec<Vec<El>> {
    let mut els = vec![El::Lit("a"), El::Lit("b")];
    if depth > 0 {
        let inner = bseqs(depth - 1, if depth > 1 { 2 } else { 1 });
        for x in &inner {
            for y in &inner {
                els.push(El::Group(vec![x.clone(), y.clone()]));
            }
        }
        if depth == 1 {
            els.push(El::Group(vec![vec![El::Lit("a")], vec![El::Lit("b")], vec![El::Lit("c")]]));
        }
    }
    let mut all: Vec<Vec<El>> = vec![vec![]];
    let mut last: Vec<Vec<El>> = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for l in &last {
            for e in &els {
                let mut x = l.clone();
                x.push(e.clone());
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn braces(c: &mut Ctx, sh: &Sh) {
    let mut b = Batch::new("brace", 16);
    let mut b2 = Batch::new("brace+home", 16);
    let mut b3 = Batch::new("brace+pipe", 16);
    let thorough = c.thorough();
    let mut seqs: Vec<Vec<El>> = bseqs(1, if thorough { 4 } else { 3 });
    seqs.extend(bseqs(2, 1));
    for s in seqs {
        let t = btext(&s);
        let w = bexpand(&s);
        // an empty alternative that expands to no text at all gives no checkable argument
        if !t.contains('{') || w.iter().any(|x| x.is_empty()) || w.len() > 64 {
            continue;
        }
        b.push(c, sh, t.clone(), w.clone());
        b2.push(c, sh, t.clone(), w.clone());
        b3.push(c, sh, t, w);
    }
    for t in ["{}", "a{}", "{}b", "a{}b", "{}{}", "x{a,b}{}", "{}{a,b}", "\\{a,b\\}", "a\\{b", "{a\\,b,c}", "{a,b\\}c}", "{a,\\{b}"] {
        let w: Vec<String> = match t {
            "x{a,b}{}" => vec!["xa{}".into(), "xb{}".into()],
            "{}{a,b}" => vec!["{}a".into(), "{}b".into()],
            "\\{a,b\\}" => vec!["{a,b}".into()],
            "a\\{b" => vec!["a{b".into()],
            "{a\\,b,c}" => vec!["a,b".into(), "c".into()],
            "{a,b\\}c}" => vec!["a".into(), "b}c".into()],
            "{a,\\{b}" => vec!["a".into(), "{b".into()],
            _ => vec![t.to_string()],
        };
        b.push(c, sh, t.to_string(), w.clone());
        b3.push(c, sh, t.to_string(), w);
    }
    b.flush(c, sh);
    b2.flush(c, sh);
    b3.flush(c, sh);
}

// ---- wildcards ----
fn gmatch(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| gmatch(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && gmatch(&p[1..], &s[1..]),
        Some('[') => {
            let end = p.iter().position(|c| *c == ']').unwrap();
            let (neg, set) = if p[1] == '!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
            let Some(&ch) = s.first() else { return false };
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' {
                    hit |= set[i] <= ch && ch <= set[i + 2];
                    i += 3;
                } else {
                    hit |= set[i] == ch;
                    i += 1;
                }
            }
            hit != neg && gmatch(&p[end + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && gmatch(&p[1..], &s[1..]),
    }
}
fn globs(c: &mut Ctx, sh: &mut Sh) {
    let root = sh.dir.clone();
    let atoms = ["a", "b", "*", "?", "[ab]", "[!a]", "[a-b]"];
    let mut pats: Vec<String> = vec![];
    for n in 1..=3usize {
        for code in 0..atoms.len().pow(n as u32) {
            let mut x = code;
            let mut s = String::new();
            for _ in 0..n {
                s += atoms[x % atoms.len()];
                x /= atoms.len();
            }
            if s.contains(['*', '?', '[']) && !s.contains("**") {
                pats.push(s);
            }
        }
    }
    // the directories the lines run in: their own names must not take part in the matching
    for cwd in ["plain", "sp ace", "[ab]", "é*", "q'u\"o"] {
      for names in [["a", "b", "ab", "ba", "aab", "c", "é", "a b", "ac"], ["a", "b", "ab", "ba", "aab", "c", "d", "a b", "ac"]] {
        let base = root.join(if names.contains(&"é") { format!("g-{cwd}") } else { format!("n-{cwd}") });
        for n in names {
            std::fs::create_dir_all(base.join("sub").join(n)).unwrap();
            std::fs::write(base.join(n), b"").unwrap();
            std::fs::write(base.join("sub").join(n).join("x"), b"").unwrap();
        }
        sh.dir = base.clone();
        let mut all: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        all.push("sub".into());
        all.sort();
        let mut subs: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        subs.sort();
        let full = cwd == "plain" || c.thorough();
        let mut bs = [Batch::new("glob", 8), Batch::new("glob+home", 8), Batch::new("glob+pipe", 8)];
        for (i, p) in pats.iter().enumerate() {
            if !full && i % 7 != 3 && p.len() > 4 {
                continue;
            }
            let pc: Vec<char> = p.chars().collect();
            // `?` and negated classes of the glob library match single bytes: two such patterns
            // are checked apart (below), the others on names they can match.
            if p.contains(['!', '?']) == names.contains(&"é") {
                continue;
            }
            let hits = |v: &Vec<String>, pre: &str, suf: &str| -> Vec<String> {
                v.iter().filter(|n| gmatch(&pc, &n.chars().collect::<Vec<_>>())).map(|n| format!("{pre}{n}{suf}")).collect()
            };
            let abs = base.display().to_string();
            let cases = [
                (p.clone(), hits(&all, "", "")),
                (format!("sub/{p}"), hits(&subs, "sub/", "")),
                (format!("sub/{p}/x"), hits(&subs, "sub/", "/x")),
                (format!("s*b/{p}"), hits(&subs, "sub/", "")),
                (format!("none/{p}"), vec![]),
                (format!("{abs}/sub/{p}"), hits(&subs, &format!("{abs}/sub/"), "")),
                (format!("{{a,z}}{p}"), {
                    let mut v = vec![];
                    for l in ["a", "z"] {
                        let q: Vec<char> = format!("{l}{p}").chars().collect();
                        let mut h: Vec<String> = all.iter().filter(|n| gmatch(&q, &n.chars().collect::<Vec<_>>())).cloned().collect();
                        if h.is_empty() {
                            h.push(format!("{l}{p}"));
                        }
                        v.extend(h);
                    }
                    v
                }),
            ];
            for (k, (src, mut want)) in cases.into_iter().enumerate() {
                if k == 5 && cwd != "plain" {
                    continue; // the directory's name would have to be escaped
                }
                if want.is_empty() {
                    want.push(src.clone()); // no match: the pattern stays as it is
                }
                for b in bs.iter_mut() {
                    b.push(c, sh, src.clone(), want.clone());
                }
            }
        }
        for b in bs.iter_mut() {
            b.flush(c, sh);
        }
        if cwd == "plain" && names.contains(&"é") {
            Batch { kind: "glob-bytes", forms: vec![("[!a]?".into(), vec!["ba".into()])], max: 9 }.flush(c, sh);
            Batch { kind: "glob-bytes", forms: vec![("?".into(), vec!["a".into(), "b".into(), "c".into(), "é".into()])], max: 9 }.flush(c, sh);
        }
      }
    }
    sh.dir = root;
}

fn homes(c: &mut Ctx, sh: &mut Sh, n: usize) {
    let keep = sh.home.clone();
    let mut hs: Vec<String> = vec![];
    words(SIGMA, n, &mut |w| {
        if !w.contains('/') && w != "." && w != ".." {
            hs.push(w.to_string())
        }
    });
    for w in hs {
        let home = keep.join("h").join(&w);
        std::fs::create_dir_all(&home).unwrap();
        sh.home = home.clone();
        let h = home.display().to_string();
        let mut b = Batch::new("homedir", 100);
        for (s, v) in [("~", h.clone()), ("~/", format!("{h}/")), ("~/x", format!("{h}/x")), ("~/a\\ b", format!("{h}/a b")), ("a~", "a~".into()), ("'~'", "~".into()), ("\"~\"", "~".into()), ("a/~", "a/~".into()), ("\\~/x", "~/x".into())] {
            b.push(c, sh, s.into(), vec![v]);
        }
        b.flush(c, sh);
        sh.home = keep.clone();
        let _ = std::fs::remove_dir_all(&home);
    }
}

fn variables(c: &mut Ctx, sh: &mut Sh) {
    sh.env = vec![("V".into(), "v0".into()), ("V1".into(), "$W".into()), ("V_1".into(), "~".into()), ("W".into(), "w w".into()), ("EMPTYV".into(), "".into()), ("LS".into(), "*".into())];
    for kind in ["name", "name+home", "name+pipe", "name+list", "name+capture"] {
        let mut b = Batch::new(kind, 1);
        for (s, w) in [
            ("$V", "v0"), ("$V1", "$W"), ("$V_1", "~"), ("$W", "w w"), ("$LS", "*"), ("V", "V"), ("V1", "V1"), ("W", "W"), ("HOME", "HOME"), ("PATH", "PATH"),
            ("'$V'", "$V"), ("\\$V", "$V"), ("\"\\$V\"", "$V"), ("$EMPTYV", ""), ("'V'", "V"), ("\"W\"", "W"),
        ] {
            b.push(c, sh, s.to_string(), vec![w.to_string()]);
        }
        let mut b = Batch::new(kind, 100);
        for (s, w) in [("$V", "v0"), ("$V1", "$W"), ("x", "x"), ("$W", "w w"), ("$W", "w w"), ("V", "V"), ("$V", "v0"), ("'$V'", "$V")] {
            b.push(c, sh, s.to_string(), vec![w.to_string()]);
        }
        b.flush(c, sh);
    }
    sh.env.clear();
}

/// The command's own name, written in any way, and found through an alias.
fn commands(c: &mut Ctx, sh: &mut Sh) {
    for n in ["my cmd", "c$d", "é", "a*b", "it's", "q\"q", "p{a,b}", "x;y", "b\\s", "[t]", "a&b", "#h"] {
        sh.stub(n);
        for (k, src) in [("esc", esc(n)), ("sq", squote(n)), ("dq", dquote(n))] {
            for (line, want) in [
                (format!("{src} x"), vec![(n, vec!["x"])]),
                (format!("{src}"), vec![(n, vec![])]),
                (format!("ex 0 a && {src} x"), vec![("ex", vec!["0", "a"]), (n, vec!["x"])]),
                (format!("ex 0 a | {src} x"), vec![("ex", vec!["0", "a"]), (n, vec!["x"])]),
            ] {
                if !c.mine() {
                    continue;
                }
                c.begin(&line);
                c.eval(&line, true);
                c.transitions += 1;
                let o = sh.run(&line);
                let want: Vec<(String, Vec<String>)> = want.iter().map(|(a, b)| (a.to_string(), b.iter().map(|s| s.to_string()).collect())).collect();
                let mut got = o.cmds();
                if line.contains('|') {
                    got.sort_by_key(|g| g.0 != "ex"); // the stages run side by side
                }
                if got != want {
                    c.violation(format!("cmd-{k}:{line}"), format!("`{line}`: got {:?} (status {:?}, {:?})", got, o.code, o.stderr), json!({"line": line, "want": format!("{want:?}")}));
                }
            }
        }
    }
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    if let Some(r) = c.only.clone() {
        let l = r["line"].as_str().unwrap_or_default().to_string();
        for e in r["env"].as_array().into_iter().flatten() {
            sh.env.push((e[0].as_str().unwrap().into(), e[1].as_str().unwrap().into()));
        }
        for f in r["files"].as_array().into_iter().flatten() {
            std::fs::create_dir_all(sh.dir.join("globs/d e")).unwrap();
            std::fs::write(sh.dir.join("globs/d e").join(f.as_str().unwrap()), b"").unwrap();
        }
        let o = sh.run(&l);
        println!("{l:?}: {o:#?}");
        c.violation(format!("replay:{l}"), format!("ran {:?}, status {:?}; expected {}", o.cmds(), o.code, r["want"].as_str().unwrap_or("?")), r);
        return;
    }
    quoting(c, &mut sh, SIGMA, 1, true);
    quoting(c, &mut sh, SIGMA, 2, true);
    let core: &[char] = &['a', ' ', '\'', '"', '\\', '$', ';', '*', '{', '~', '\n', '>', '(', '&'];
    if c.thorough() {
        quoting(c, &mut sh, SIGMA, 3, false);
    } else {
        quoting(c, &mut sh, core, 3, false);
    }
    braces(c, &sh);
    globs(c, &mut sh);
    let n = if c.thorough() { 2 } else { 1 };
    homes(c, &mut sh, 1);
    if n == 2 {
        homes(c, &mut sh, 2);
    }
    variables(c, &mut sh);
    commands(c, &mut sh);
}

pub fn spec() -> Spec {
    Spec {
        id: "C04",
        level: "exploration",
        rule: "all words of up to 2 (3) characters over 39 characters (3 over a core of 14) x {escaped, single-quoted, double-quoted, variable, file name} x {alone, with an expansion on the line, in a pipeline, list, substitution, capture}; all brace patterns to length 3 (4) and nesting 2; all wildcard patterns of up to 3 atoms in five directories; home directories and command names with every such character",
        assumptions: &["each line runs in the real shell (dsh -c) with a recording stand-in as the command", "words carry no NUL; adjacent spans (a\"b\") are separate arguments in this grammar and not covered"],
        shards: 8,
        hang_s: 120,
        run,
    }
}
