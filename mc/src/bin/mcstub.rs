//! Recording stand-in for external commands: logs what it was given, acts as its name says.
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;

fn esc(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in String::from_utf8_lossy(b).chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<std::ffi::OsString> = std::env::args_os().collect();
    let name = std::path::Path::new(&args[0]).file_name().unwrap().to_string_lossy().into_owned();
    let a = |i: usize| args.get(i).map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
    let argv: Vec<String> = args[1..].iter().map(|x| esc(x.as_bytes())).collect();
    let mut extra = String::new();
    let mut code = 0;
    let mut stdin = vec![];
    let mut tail: Vec<u8> = vec![];
    let mut err: Vec<u8> = vec![];
    match name.as_str() {
        "ex" | "rc" => code = a(1).parse().unwrap_or(0),
        "src" => {
            tail = args.get(2).map(|x| x.as_bytes().to_vec()).unwrap_or_default();
            tail.push(b'\n');
            if let Some(e) = args.get(3) {
                err = e.as_bytes().to_vec();
                err.push(b'\n');
            }
        }
        "flt" => {
            std::io::stdin().read_to_end(&mut stdin).ok();
            extra = format!(",\"stdin\":{}", esc(&stdin));
            let t = String::from_utf8_lossy(&stdin).trim_end_matches('\n').to_string();
            tail = format!("{}({})\n", a(1), t).into_bytes();
            code = a(2).parse().unwrap_or(0);
            if let Some(e) = args.get(3) {
                err = e.as_bytes().to_vec();
                err.push(b'\n');
            }
        }
        "envp" => {
            let mut v = vec![];
            let mut names = std::collections::BTreeSet::new();
            for (k, x) in std::env::vars_os() {
                let mut k = k.to_string_lossy().into_owned();
                // a name given twice is seen as such
                while !names.insert(k.clone()) {
                    k += "#again";
                }
                if args[1..].iter().any(|p| k.starts_with(&*p.to_string_lossy())) {
                    v.push(format!("{}:{}", esc(k.as_bytes()), esc(x.as_bytes())));
                }
            }
            v.sort();
            extra = format!(",\"env\":{{{}}}", v.join(","));
        }
        // N bytes of output; the count of what came in
        "big" => tail = vec![b'x'; a(1).parse().unwrap_or(0)],
        "cnt" => {
            std::io::stdin().read_to_end(&mut stdin).ok();
            tail = format!("{}\n", stdin.len()).into_bytes();
            code = a(2).parse().unwrap_or(0);
        }
        // runs until the file LOG.NAME.go appears (its content is the status); then logs its end
        "hld" => {
            let Some(log) = std::env::var_os("MCLOG") else { std::process::exit(99) };
            let say = |l: String| {
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(&log) {
                    f.write_all(l.as_bytes()).is_ok()
                } else {
                    false
                }
            };
            std::fs::OpenOptions::new().append(true).create(true).open(&log).ok();
            say(format!("{{\"cmd\":\"hld\",\"argv\":[{}],\"pid\":{}}}\n", argv.join(","), std::process::id()));
            let go = format!("{}.{}.go", log.to_string_lossy(), a(1));
            let t = std::time::Instant::now();
            loop {
                if let Ok(c) = std::fs::read_to_string(&go) {
                    say(format!("{{\"cmd\":\"end\",\"argv\":[{}]}}\n", argv.join(",")));
                    std::process::exit(c.trim().parse().unwrap_or(0));
                }
                if t.elapsed().as_secs() > 90 || !std::path::Path::new(&log).exists() {
                    std::process::exit(98);
                }
                std::thread::sleep(std::time::Duration::from_millis(4));
            }
        }
        // logs its start, then what its input has been, in hexadecimal
        "inp" => {
            let Some(log) = std::env::var_os("MCLOG") else { std::process::exit(99) };
            let say = |l: String| std::fs::OpenOptions::new().append(true).create(true).open(&log).is_ok_and(|mut f| f.write_all(l.as_bytes()).is_ok());
            say(format!("{{\"cmd\":\"inp\",\"argv\":[{}]}}\n", argv.join(",")));
            std::io::stdin().read_to_end(&mut stdin).ok();
            let hex: String = stdin.iter().map(|b| format!("{b:02x}")).collect();
            say(format!("{{\"cmd\":\"got\",\"argv\":[{},\"{hex}\"]}}\n", argv.join(",")));
            return;
        }
        // logs the size of its terminal whenever it changes; ends after the given number of sizes
        "siz" => {
            let Some(log) = std::env::var_os("MCLOG") else { std::process::exit(99) };
            let t = std::time::Instant::now();
            let (mut n, mut last) = (0, (0u16, 0u16));
            while n < a(1).parse().unwrap_or(1) && t.elapsed().as_secs() < 6 {
                let mut w: libc::winsize = unsafe { std::mem::zeroed() };
                unsafe { libc::ioctl(1, libc::TIOCGWINSZ, &mut w) };
                if (w.ws_row, w.ws_col) != last {
                    last = (w.ws_row, w.ws_col);
                    n += 1;
                    let l = format!("{{\"cmd\":\"siz\",\"argv\":[\"{} {}\"]}}\n", last.0, last.1);
                    std::fs::OpenOptions::new().append(true).create(true).open(&log).is_ok_and(|mut f| f.write_all(l.as_bytes()).is_ok());
                }
                std::thread::sleep(std::time::Duration::from_millis(5));
            }
            return;
        }
        // writes pieces: hexadecimal bytes, ! before them for standard error, +MS for a pause
        "say" => {
            for x in &args[1..] {
                let x = x.to_string_lossy();
                if let Some(ms) = x.strip_prefix('+') {
                    std::thread::sleep(std::time::Duration::from_millis(ms.parse().unwrap_or(0)));
                    continue;
                }
                let (e, h) = match x.strip_prefix('!') {
                    Some(h) => (true, h),
                    None => (false, &*x),
                };
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                if e {
                    std::io::stderr().write_all(&b).ok();
                } else {
                    std::io::stdout().write_all(&b).ok();
                    std::io::stdout().flush().ok();
                }
            }
        }
        "slp" => std::thread::sleep(std::time::Duration::from_millis(a(1).parse().unwrap_or(0))),
        _ => {}
    }
    let cwd = std::env::current_dir().map(|p| p.display().to_string()).unwrap_or_default();
    if let Some(p) = std::env::var_os("MCLOG") {
        let line = format!("{{\"cmd\":{},\"argv\":[{}],\"cwd\":{}{}}}\n", esc(name.as_bytes()), argv.join(","), esc(cwd.as_bytes()), extra);
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            f.write_all(line.as_bytes()).ok();
        }
    }
    std::io::stderr().write_all(&err).ok();
    std::io::stdout().write_all(&tail).ok();
    std::io::stdout().flush().ok();
    if name == "kil" {
        let s: i32 = a(1).parse().unwrap_or(15);
        unsafe {
            libc::signal(s, libc::SIG_DFL);
            libc::raise(s);
        }
    }
    std::process::exit(code);
}
