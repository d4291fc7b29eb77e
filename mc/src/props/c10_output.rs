//! C10: what commands write and what is typed for them. Every sequence of pieces of output (text,
//! line ends, halves of a character, bytes that are no text, the error stream, pauses longer than
//! the shell's own timeouts), large outputs and slow or closed readers, in every way the shell
//! runs a command: -c, a script on standard input, on a terminal with and without a pseudo
//! terminal per job, in the background. Every sequence of typed pieces for a command that reads.
use super::super::bb::{Sh, Tty};
use crate::common::*;
use serde_json::json;
use std::io::Read;
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        id: "C10",
        level: "model_checking",
        rule: "all sequences of pieces (a letter, a newline, the two halves of a character, a byte that is no text, a letter on the error stream, a pause) to depth 3 (4) in each of six ways to run a command; outputs around every buffer size, with readers that are slow or go away; all sequences of typed pieces to depth 3 (4); the terminal's size before and after a change",
        assumptions: &["a monitored output starts with \\r\\n (a unit test of the repository asks for it)", "on a terminal each \\n is shown as \\r\\n"],
        shards: 20,
        hang_s: 180,
        run,
    }
}

const PIECES: &[&str] = &["40", "0a", "c3", "a9", "ff", "!60", "+250"];

fn bytes(p: &[&str], err: bool) -> Vec<u8> {
    p.iter()
        .filter(|x| !x.starts_with('+') && x.starts_with('!') == err)
        .flat_map(|x| {
            let x = x.trim_start_matches('!');
            (0..x.len() / 2).map(move |i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap())
        })
        .collect()
}
fn both(p: &[&str]) -> Vec<u8> {
    let q: Vec<&str> = p.iter().map(|x| x.trim_start_matches('!')).collect();
    bytes(&q, false)
}
fn show(b: &[u8]) -> String {
    let e: String = b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
    if e.len() > 300 { format!("{}... ({} bytes)", &e[..300], b.len()) } else { e }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

struct Case<'a> {
    c: &'a mut Ctx,
}
impl Case<'_> {
    fn want(&self, key: &str) -> bool {
        self.c.only.as_ref().is_none_or(|o| o["key"] == *key)
    }
    fn start(&mut self, key: &str) -> bool {
        if !self.want(key) {
            return false;
        }
        self.c.begin(key);
        true
    }
    fn end(&mut self, key: &str, res: Result<(), String>) {
        self.c.eval(key, true);
        self.c.traces += 1;
        if let Err(e) = res {
            self.c.violation(key, format!("{key}: {e}"), json!({"key": key}));
        }
    }
}
fn same(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!("{what} is {} ({} bytes), expected {} ({} bytes), different from byte {at} on", show(got), got.len(), show(want), want.len()))
}
fn monitored(b: Vec<u8>) -> Vec<u8> {
    if b.is_empty() { b } else { [b"\r\n".to_vec(), b].concat() }
}

/// Command lines given with -c and on standard input.
fn scripts(c: &mut Ctx, sh: &mut Sh) {
    let depth = if c.thorough() { 4 } else { 3 };
    let mut k = Case { c };
    let mut all: Vec<Vec<&str>> = vec![];
    for n in 1..=depth {
        sequences(PIECES.len(), n, |s| all.push(s.iter().map(|i| PIECES[*i]).collect()));
    }
    for (i, p) in all.iter().enumerate() {
        if !k.c.mine() {
            continue;
        }
        let w = p.join(" ");
        for form in ["say {}", "say {} | cat", "say {} &"] {
            // deep ones in the plain form only
            if p.len() == depth && form != "say {}" && i % 3 != 0 {
                continue;
            }
            let l = form.replace("{}", &w);
            let key = format!("-c {l}");
            if k.start(&key) {
                let o = sh.run(&l);
                let (out, err) = sh.bytes();
                let r = if o.timed_out {
                    Err("does not end".into())
                } else {
                    same("standard output", &out, &monitored(bytes(p, false))).and_then(|_| {
                        // a pipeline's errors and those of a background command are monitored too
                        let e = bytes(p, true);
                        if err == monitored(e.clone()) { Ok(()) } else { same("standard error", &err, &e) }
                    })
                };
                k.end(&key, r);
                k.c.state(&(form, p.clone()));
            }
        }
        // three commands read from standard input
        if p.len() < depth {
            let lines = [format!("say {w}"), "say 41".into(), format!("say 42 {w}")];
            let key = format!("stdin {w}");
            if k.start(&key) {
                let l: Vec<&str> = lines.iter().map(|x| x.as_str()).collect();
                let o = sh.session(&l);
                let (out, err) = sh.bytes();
                let b = bytes(p, false);
                let want = [monitored(b.clone()), b"\r\nA".to_vec(), b"\r\nB".to_vec(), b].concat();
                let out = out.strip_suffix(b"\x1b[?2004l").unwrap_or(&out);
                let r = if o.timed_out { Err("does not end".into()) } else { same("standard output", out, &want).and_then(|_| same("standard error", &err, &[bytes(p, true), bytes(p, true)].concat())) };
                k.end(&key, r);
            }
        }
    }
}

const SIZES: &[usize] = &[1, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 262144, 262145, 1048577];

/// Large outputs with a reader that is slow, or goes away.
fn large(c: &mut Ctx, sh: &mut Sh) {
    let mut k = Case { c };
    for &n in SIZES {
        for form in ["big {}", "big {} | cat", "big {} &", "big 1 ; big {}"] {
            for reader in ["file", "slow", "gone"] {
                if !k.c.mine() {
                    continue;
                }
                let l = form.replace("{}", &n.to_string());
                let key = format!("-c {l} to {reader}");
                if !k.start(&key) {
                    continue;
                }
                let mut want = monitored(vec![b'x'; n]);
                if form.starts_with("big 1 ") {
                    want = [b"\r\nx".to_vec(), want].concat();
                }
                let r = if reader == "file" {
                    let o = sh.run(&l);
                    if o.timed_out { Err("does not end".into()) } else { same("standard output", &sh.bytes().0, &want) }
                } else {
                    piped(sh, &l, reader == "gone", &want)
                };
                k.end(&key, r);
                k.c.state(&(form, n, reader));
            }
        }
    }
}
fn piped(sh: &Sh, l: &str, gone: bool, want: &[u8]) -> Result<(), String> {
    let mut cmd = sh.command(&["-c", l]);
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(|| {
            libc::setsid();
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            Ok(())
        });
    }
    cmd.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let mut ch = cmd.spawn().expect("spawn mcdsh");
    let mut o = ch.stdout.take().unwrap();
    let mut got = vec![];
    let mut b = vec![0u8; 40000];
    std::thread::sleep(Duration::from_millis(300));
    if gone {
        let _ = o.read(&mut b[..1]);
        drop(o);
    } else {
        let mut first = true;
        while let Ok(n) = o.read(&mut b) {
            if n == 0 {
                break;
            }
            got.extend_from_slice(&b[..n]);
            if first || got.len() < 200_000 {
                std::thread::sleep(Duration::from_millis(if first { 250 } else { 20 }));
                first = false;
            }
        }
    }
    let t = Instant::now();
    loop {
        if let Ok(Some(_)) = ch.try_wait() {
            break;
        }
        if t.elapsed() > Duration::from_secs(15) {
            unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
            let _ = ch.kill();
            let _ = ch.wait();
            return Err("does not end".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if gone { Ok(()) } else { same("standard output", &got, want) }
}

/// Commands in the foreground of a terminal.
fn terminal(c: &mut Ctx, sh: &mut Sh, pty: bool) {
    let depth = if c.thorough() { 4 } else { 3 };
    let mode = if pty { "pty" } else { "nopty" };
    sh.env = if pty { vec![] } else { vec![("DSH_NO_PTY".into(), "1".into())] };
    let mut k = Case { c };
    for first in 0..PIECES.len() {
        for second in 0..PIECES.len() {
            if !k.c.mine() {
                continue;
            }
            let mut all: Vec<Vec<&str>> = vec![vec![PIECES[first], PIECES[second]]];
            if second == 0 {
                all.push(vec![PIECES[first]]);
            }
            for n in 1..=depth - 2 {
                sequences(PIECES.len(), n, |s| {
                    let mut v = vec![PIECES[first], PIECES[second]];
                    v.extend(s.iter().map(|i| PIECES[*i]));
                    all.push(v);
                });
            }
            let mut t: Option<Tty> = None;
            for p in all {
                // a second stage, the first one's errors among its output
                for form in ["say fe {} fd", "say fe {} fd | cat"] {
                    if p.len() >= 3 && form.ends_with("cat") {
                        continue;
                    }
                    let l = form.replace("{}", &p.join(" "));
                    let key = format!("{mode} {l}");
                    if !k.start(&key) {
                        continue;
                    }
                    if t.is_none() {
                        let mut n = sh.tty();
                        n.ready();
                        t = Some(n);
                    }
                    let x = t.as_mut().unwrap();
                    let at = x.buf.len();
                    let r = (|| {
                        let (code, _) = x.line(&l).ok_or("no prompt")?;
                        if code != 0 {
                            return Err(format!("status {code}"));
                        }
                        let new = &x.buf[at..];
                        let (Some(a), Some(b)) = (find(new, b"\xfe"), new.iter().rposition(|c| *c == 0xfd)) else {
                            return Err(format!("its beginning or end is not shown: {}", show(new)));
                        };
                        if form.ends_with("cat") {
                            // two writers: each in its own order
                            let part = |e: bool, b: &[u8]| -> Vec<u8> { b.iter().copied().filter(|c| (*c == b'`') == e).collect() };
                            let want: Vec<u8> = bytes(&p, false).into_iter().flat_map(|c| if c == b'\n' { vec![b'\r', b'\n'] } else { vec![c] }).collect();
                            return same("standard output", &part(false, &new[a + 1..b]), &want);
                        }
                        let want: Vec<u8> = both(&p).into_iter().flat_map(|c| if c == b'\n' { vec![b'\r', b'\n'] } else { vec![c] }).collect();
                        same("the output", &new[a + 1..b], &want)
                    })();
                    if r.is_err() {
                        t = None;
                    }
                    k.end(&key, r);
                    k.c.state(&(mode, form, p.clone()));
                }
            }
        }
    }
    for &n in SIZES {
        if n > 300_000 && !k.c.thorough() {
            continue;
        }
        for slow in [false, true] {
            for form in ["big {}", "big {} | cat"] {
                if !k.c.mine() {
                    continue;
                }
                let l = form.replace("{}", &n.to_string());
                let key = format!("{mode} {l}{}", if slow { " to a slow terminal" } else { "" });
                if !k.start(&key) {
                    continue;
                }
                let mut t = sh.tty();
                t.ready();
                let at = t.buf.len();
                t.send(&format!("{l}\r"));
                if slow {
                    std::thread::sleep(Duration::from_millis(900));
                }
                let r = match t.done() {
                    None => Err("no prompt".into()),
                    // the line itself and the path hold no x
                    Some((0, _)) => match t.buf[at..].iter().filter(|c| **c == b'x').count() {
                        m if m == n => Ok(()),
                        m => Err(format!("{m} bytes of {n} are shown")),
                    },
                    Some((code, _)) => Err(format!("status {code}")),
                };
                k.end(&key, r);
                k.c.state(&(mode, form, n, slow));
            }
        }
    }
}

/// Commands in the background of a terminal: at the prompt, and while another command runs.
fn background(c: &mut Ctx, sh: &mut Sh) {
    sh.env = vec![];
    let depth = if c.thorough() { 3 } else { 2 };
    let mut k = Case { c };
    let mut all: Vec<Vec<&str>> = vec![];
    for n in 1..=depth {
        sequences(PIECES.len(), n, |s| all.push(s.iter().map(|i| PIECES[*i]).collect()));
    }
    let mut t: Option<Tty> = None;
    for p in all {
        for form in ["say fe {} fd &", "say fe {} fd & ; slp 400", "say fe {} fd | cat &"] {
            if !k.c.mine() {
                continue;
            }
            let l = form.replace("{}", &p.join(" "));
            let key = format!("background {l}");
            if !k.start(&key) {
                continue;
            }
            if t.is_none() {
                let mut n = sh.tty();
                n.ready();
                t = Some(n);
            }
            let x = t.as_mut().unwrap();
            let at = x.buf.len();
            // none of these is part of the prompt
            let own = |b: &[u8], set: &[u8]| -> Vec<u8> { b.iter().copied().filter(|c| set.contains(c)).collect() };
            let r = (|| {
                let (code, _) = x.line(&l).ok_or("no prompt")?;
                if code != 0 {
                    return Err(format!("status {code}"));
                }
                let all: Vec<u8> = [b"\xfe".to_vec(), bytes(&p, false), b"\xfd".to_vec()].concat();
                let (o, e) = (b"\xfe\xfd\xc3\xa9\xff@", b"`");
                let want = own(&all, o);
                let ewant = bytes(&p, true);
                let done = |x: &Tty| own(&x.buf[at..], o).len() >= want.len() && own(&x.buf[at..], e).len() >= ewant.len();
                x.until(Duration::from_secs(8), done);
                same("standard output", &own(&x.buf[at..], o), &want)?;
                same("standard error", &own(&x.buf[at..], e), &ewant)
            })();
            if r.is_err() {
                t = None;
            }
            k.end(&key, r);
            k.c.state(&("background", form, p.clone()));
        }
    }
    drop(t);
    for &n in SIZES {
        if n > 300_000 && !k.c.thorough() {
            continue;
        }
        for form in ["big {} &", "big {} | cat &"] {
            if !k.c.mine() {
                continue;
            }
            let l = form.replace("{}", &n.to_string());
            let key = format!("background {l}");
            if !k.start(&key) {
                continue;
            }
            let mut t = sh.tty();
            t.ready();
            let at = t.buf.len();
            let r = if t.line(&l).is_none() {
                Err("no prompt".into())
            } else {
                let count = |x: &Tty| x.buf[at..].iter().filter(|c| **c == b'x').count();
                t.until(Duration::from_secs(20), |x| count(x) >= n);
                match count(&t) {
                    m if m == n => Ok(()),
                    m => Err(format!("{m} bytes of {n} are shown")),
                }
            };
            k.end(&key, r);
        }
    }
}

const TYPED: &[&str] = &["x", "é", "\r", "\x04", "+", "\t", "\x1b[A"];

/// What a command on the terminal reads is what is typed.
fn typed(c: &mut Ctx, sh: &mut Sh, pty: bool) {
    let mode = if pty { "pty" } else { "nopty" };
    sh.env = if pty { vec![] } else { vec![("DSH_NO_PTY".into(), "1".into())] };
    let depth = if c.thorough() { 4 } else { 3 };
    let mut k = Case { c };
    let mut all: Vec<Vec<String>> = vec![];
    for n in 1..=depth {
        sequences(TYPED.len(), n, |s| all.push(s.iter().map(|i| TYPED[*i].to_string()).collect()));
    }
    for n in [100usize, 1000, 4000] {
        all.push(vec!["y".repeat(n), "\r".into()]);
    }
    for n in [5usize, 40, 200] {
        all.push((0..n).flat_map(|i| [format!("line {i} {}", "z".repeat(i % 300)), "\r".to_string()]).collect());
    }
    let mut t: Option<(Tty, usize)> = None;
    for keys in all {
        // end of input: the key where no line has been begun
        let mut want = vec![];
        let mut line = 0;
        let mut ok = true;
        for x in &keys {
            match x.as_str() {
                "\x04" if line == 0 => ok = false,
                "\x04" => line = 0,
                "\r" => {
                    want.push(b'\n');
                    line = 0;
                }
                "+" => {}
                s => {
                    want.extend_from_slice(s.as_bytes());
                    line += s.len();
                }
            }
        }
        if !ok || !k.c.mine() {
            continue;
        }
        let sum: String = keys.concat();
        let key = format!("{mode} typed {:?}{}", sum.chars().take(60).collect::<String>(), if sum.len() > 60 { format!(" ({} characters)", sum.len()) } else { String::new() });
        if !k.start(&key) {
            continue;
        }
        if t.is_none() {
            let mut n = sh.tty();
            n.ready();
            t = Some((n, 0));
        }
        let (x, n) = t.as_mut().unwrap();
        *n += 1;
        let name = format!("i{n}");
        let r = (|| {
            x.send(&format!("inp {name}\r"));
            let has = |l: &[serde_json::Value], c: &str| l.iter().any(|e| e["cmd"] == c && e["argv"][0] == name);
            if !x.wait_log(|l| has(l, "inp")) {
                return Err("the command was not started".into());
            }
            for y in &keys {
                if y == "+" {
                    std::thread::sleep(Duration::from_millis(150));
                } else {
                    x.send(y);
                    x.until(Duration::ZERO, |_| true);
                }
            }
            if line > 0 {
                x.send("\x04");
            }
            x.send("\x04");
            let (code, _) = x.done().ok_or("no prompt")?;
            if code != 0 {
                return Err(format!("status {code}"));
            }
            let got = x.log().iter().find(|e| e["cmd"] == "got" && e["argv"][0] == name).and_then(|e| e["argv"][1].as_str().map(|s| s.to_string())).unwrap_or_default();
            let got: Vec<u8> = (0..got.len() / 2).map(|i| u8::from_str_radix(&got[2 * i..2 * i + 2], 16).unwrap()).collect();
            same("what the command read", &got, &want)
        })();
        if r.is_err() {
            t = None;
        }
        k.end(&key, r);
        k.c.state(&(mode, keys));
    }
    drop(t);
    // typed while a command runs that reads nothing: there for the next prompt
    let key = format!("{mode} typed ahead");
    if k.c.mine() && k.start(&key) {
        let mut t = sh.tty();
        t.ready();
        t.send("hld a\r");
        let r = (|| {
            if !t.wait_log(|l| l.iter().any(|e| e["cmd"] == "hld")) {
                return Err("the command was not started".to_string());
            }
            t.send("rec ahead\r");
            t.until(Duration::from_millis(200), |_| false);
            std::fs::write(format!("{}.a.go", sh.log.display()), "0").unwrap();
            t.done().ok_or("no prompt")?;
            t.until(Duration::from_secs(3), |x| x.cmds().iter().any(|c| c.0 == "rec"));
            match t.cmds().iter().find(|c| c.0 == "rec") {
                Some(c) if c.1 == ["ahead"] => Ok(()),
                x => Err(format!("the line typed while another command ran became {x:?}")),
            }
        })();
        let _ = std::fs::remove_file(format!("{}.a.go", sh.log.display()));
        k.end(&key, r);
    }
    // the size of the terminal
    for l in ["siz 2", "siz 2 | siz 2"] {
        let key = format!("{mode} size {l}");
        if k.c.mine() && k.start(&key) {
            let mut t = sh.tty();
            t.ready();
            t.send(&format!("{l}\r"));
            let sizes = |t: &Tty| -> Vec<String> { t.cmds().into_iter().filter(|c| c.0 == "siz").map(|c| c.1[0].clone()).collect() };
            t.wait_log(|l| l.iter().any(|e| e["cmd"] == "siz" && e["argv"][0] == "40 200"));
            t.resize(33, 77);
            let ended = t.done().is_some();
            let got = sizes(&t);
            let r = match (ended, got.iter().any(|x| x == "40 200"), got.last().is_some_and(|x| x == "33 77")) {
                (true, true, true) => Ok(()),
                _ => Err(format!("the sizes seen by the command are {got:?}, expected 40 200, then 33 77")),
            };
            k.end(&key, r);
        }
    }
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    scripts(c, &mut sh);
    large(c, &mut sh);
    for pty in [true, false] {
        terminal(c, &mut sh, pty);
        typed(c, &mut sh, pty);
    }
    background(c, &mut sh);
}
