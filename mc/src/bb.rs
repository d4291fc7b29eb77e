//! Black-box driver: run the real shell (`mcdsh -c LINE`) with recording stand-ins as commands.
use serde_json::Value;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Sh {
    pub dir: PathBuf,
    pub bin: PathBuf,
    pub log: PathBuf,
    pub home: PathBuf,
    pub env: Vec<(String, String)>,
    pub timeout: Duration,
    /// only the stand-ins are on PATH
    pub only_stubs: bool,
    /// a file to read as standard input
    pub stdin: Option<PathBuf>,
    /// keys to type on the controlling terminal, one for each confirmation asked for
    pub keys: Option<String>,
    /// rows and columns of its terminal
    pub size: (u16, u16),
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub stdout: String,
    pub stderr: String,
    pub log: Vec<Value>,
}

impl Out {
    /// Standard output without the decoration the output monitor adds for a terminal.
    pub fn text(&self) -> String {
        self.stdout.replace('\r', "").trim_start_matches('\n').to_string()
    }
    pub fn cmds(&self) -> Vec<(String, Vec<String>)> {
        self.log
            .iter()
            .map(|l| {
                (
                    l["cmd"].as_str().unwrap_or("").to_string(),
                    l["argv"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
                )
            })
            .collect()
    }
}

pub const STUBS: &[&str] = &["ex", "rc", "rec", "src", "flt", "envp", "slp", "hld", "say", "kil", "big", "cnt", "inp", "siz"];

pub fn target(name: &str) -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

impl Sh {
    pub fn new(scratch: &Path) -> Sh {
        let s = Sh {
            dir: scratch.join("bb"),
            bin: scratch.join("bbbin"),
            log: scratch.join("bblog"),
            home: scratch.join("bbhome"),
            env: vec![],
            timeout: Duration::from_secs(20),
            size: (40, 200),
            only_stubs: false,
            stdin: None,
            keys: None,
        };
        for d in [&s.dir, &s.bin, &s.home] {
            std::fs::create_dir_all(d).unwrap();
        }
        for n in STUBS {
            s.stub(n);
        }
        s
    }
    pub fn stub(&self, name: &str) {
        let p = self.bin.join(name);
        if !p.exists() {
            std::os::unix::fs::symlink(target("mcstub"), p).unwrap();
        }
    }
    pub fn run(&self, line: &str) -> Out {
        self.run_args(&["-c", line])
    }
    /// One shell reading these lines from a file.
    pub fn session(&mut self, lines: &[&str]) -> Out {
        let f = self.home.join("session-input");
        let text = lines.join("\n") + "\n";
        assert!(text.len() < 8000);
        std::fs::write(&f, text).unwrap();
        self.stdin = Some(f);
        let o = self.run_args(&[]);
        self.stdin = None;
        o
    }
    pub fn config(&self, lisp: &str) {
        let d = self.home.join(".config/dsh");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("config.lisp"), lisp).unwrap();
    }
    /// What the last command that was run wrote to its output and errors.
    pub fn bytes(&self) -> (Vec<u8>, Vec<u8>) {
        let r = |n| std::fs::read(self.home.join(n)).unwrap_or_default();
        (r("stdout"), r("stderr"))
    }
    pub fn command(&self, args: &[&str]) -> Command {
        let _ = std::fs::remove_file(&self.log);
        let mut c = Command::new(target("mcdsh"));
        c.args(args).current_dir(&self.dir).env_clear();
        let path = if self.only_stubs { self.bin.display().to_string() } else { format!("{}:/usr/bin:/bin", self.bin.display()) };
        c.env("PATH", path)
            .env("HOME", &self.home)
            .env("MCLOG", &self.log)
            .env("LANG", "C.UTF-8")
            .env("TERM", "xterm")
            .env("TMPDIR", &self.home)
            .env("PWD", &self.dir)
            .env("USER", "mc")
            .env("GIT_CEILING_DIRECTORIES", "/");
        for (k, v) in &self.env {
            // a NUL stands for a variable that is not there
            if v == "\0" {
                c.env_remove(k);
                continue;
            }
            c.env(k, v);
        }
        c
    }
    pub fn run_args(&self, args: &[&str]) -> Out {
        let mut c = self.command(args);
        let so = self.home.join("stdout");
        let se = self.home.join("stderr");
        match &self.stdin {
            Some(f) => c.stdin(std::fs::File::open(f).unwrap()),
            None => c.stdin(Stdio::null()),
        };
        let pty = self.keys.as_ref().map(|_| nix::pty::openpty(None, None).expect("openpty"));
        let slave = pty.as_ref().map(|p| std::os::fd::AsRawFd::as_raw_fd(&p.slave));
        c.stdout(std::fs::File::create(&so).unwrap());
        c.stderr(std::fs::File::create(&se).unwrap());
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                if let Some(fd) = slave {
                    libc::ioctl(fd, libc::TIOCSCTTY as _, 0);
                }
                // The worker ignores nothing special; give the shell default dispositions.
                libc::signal(libc::SIGPIPE, libc::SIG_DFL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("spawn mcdsh");
        let pid = child.id() as i32;
        let t = Instant::now();
        let mut timed_out = false;
        let keys: Vec<u8> = self.keys.clone().unwrap_or_default().into_bytes();
        let mut typed = 0;
        let st = loop {
            match child.try_wait().unwrap() {
                Some(st) => break Some(st),
                None if t.elapsed() > self.timeout => {
                    timed_out = true;
                    if let Some(d) = std::env::var_os("VMC_HANGDIR") {
                        // for looking into a hang by hand: where every process of the session is
                        let f = std::path::Path::new(&d).join(format!("hang-{pid}"));
                        let _ = Command::new("sh").args(["-c", &format!("(cat {}; ps -ef --forest; for p in $(pgrep -s {pid}); do echo \"== $p\"; ls -l /proc/$p/fd; gdb -p $p -batch -ex 'thread apply all bt'; done) > {} 2>&1", self.log.display(), f.display())]).status();
                    }
                    unsafe { libc::kill(-pid, libc::SIGKILL) };
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                None => {
                    if typed < keys.len() {
                        let asked = std::fs::read_to_string(&so).unwrap_or_default().matches("Proceed? [y/N").count();
                        if asked > typed {
                            nix::unistd::write(&pty.as_ref().unwrap().master, &keys[typed..typed + 1]).ok();
                            typed += 1;
                        }
                    }
                    std::thread::sleep(Duration::from_micros(300))
                }
            }
        };
        // A pipeline is over with its last stage: let the others finish, then end what is left.
        let t = Instant::now();
        while !timed_out && t.elapsed() < Duration::from_secs(2) && unsafe { libc::kill(-pid, 0) } == 0 {
            std::thread::sleep(Duration::from_micros(300));
        }
        unsafe { libc::kill(-pid, libc::SIGKILL) };
        Out {
            code: st.and_then(|s| s.code()),
            signal: st.and_then(|s| s.signal()),
            timed_out,
            stdout: String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).into_owned(),
            stderr: String::from_utf8_lossy(&std::fs::read(&se).unwrap_or_default()).into_owned(),
            log: read_log(&self.log),
        }
    }
    /// An interactive shell on a terminal of its own.
    pub fn tty(&self) -> Tty {
        let p = nix::pty::openpty(Some(&nix::pty::Winsize { ws_row: self.size.0, ws_col: self.size.1, ws_xpixel: 0, ws_ypixel: 0 }), None).expect("openpty");
        let mut c = self.command(&[]);
        c.stdin(Stdio::from(p.slave.try_clone().unwrap())).stdout(Stdio::from(p.slave.try_clone().unwrap())).stderr(Stdio::from(p.slave));
        unsafe {
            c.pre_exec(|| {
                libc::setsid();
                libc::ioctl(0, libc::TIOCSCTTY as _, 0);
                libc::signal(libc::SIGPIPE, libc::SIG_DFL);
                Ok(())
            });
        }
        let child = c.spawn().expect("spawn mcdsh");
        drop(c);
        Tty { pid: child.id() as i32, child, master: p.master, buf: vec![], seen: 0, log: self.log.clone(), timeout: self.timeout }
    }
}

fn read_log(log: &Path) -> Vec<Value> {
    std::fs::read_to_string(log).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect()
}

/// A shell on a terminal. The marks it prints around each command (OSC 133) tell when it is ready
/// and how the command ended, so nothing here depends on how long something takes.
pub struct Tty {
    pub pid: i32,
    child: std::process::Child,
    master: std::os::fd::OwnedFd,
    pub buf: Vec<u8>,
    seen: usize,
    log: PathBuf,
    pub timeout: Duration,
}

impl Tty {
    pub fn send(&mut self, keys: &str) {
        self.send_bytes(keys.as_bytes());
    }
    /// Read what the shell printed; false when it is gone.
    fn pump(&mut self, ms: i32) -> bool {
        use std::os::fd::AsRawFd;
        let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, ms) } <= 0 {
            return true;
        }
        let mut b = [0u8; 65536];
        match nix::unistd::read(&self.master, &mut b) {
            Ok(n) if n > 0 => {
                if b[..n].windows(4).any(|w| w == b"\x1b[6n") {
                    self.send("\x1b[1;1R");
                }
                self.buf.extend_from_slice(&b[..n]);
                true
            }
            _ => false,
        }
    }
    /// Read what there is within this time; false when the shell is gone.
    pub fn read_some(&mut self, ms: i32) -> bool {
        self.pump(ms)
    }
    /// Wait until `pat` is printed after what was already waited for; the text up to and with it.
    pub fn wait(&mut self, pat: &str) -> Option<String> {
        let t = Instant::now();
        let pat = pat.as_bytes();
        loop {
            if let Some(i) = self.buf[self.seen..].windows(pat.len()).position(|w| w == pat) {
                let end = self.seen + i + pat.len();
                let text = String::from_utf8_lossy(&self.buf[self.seen..end]).into_owned();
                self.seen = end;
                return Some(text);
            }
            if !self.pump(50) || t.elapsed() > self.timeout {
                return None;
            }
        }
    }
    /// The prompt is there and the shell reads keys.
    pub fn ready(&mut self) -> bool {
        self.wait("\x1b]133;A").is_some()
    }
    /// The running command is over and the next prompt is there: its exit status and what was printed.
    pub fn done(&mut self) -> Option<(i32, String)> {
        let out = self.wait("\x1b]133;D;")?;
        let code = self.wait("\x1b\\")?;
        let code = code.trim_end_matches("\x1b\\").parse().ok()?;
        self.ready().then_some((code, out))
    }
    /// Type a line, press Enter, wait for the next prompt.
    pub fn line(&mut self, line: &str) -> Option<(i32, String)> {
        self.send(line);
        self.send("\r");
        self.done()
    }
    pub fn log(&self) -> Vec<Value> {
        read_log(&self.log)
    }
    pub fn cmds(&self) -> Vec<(String, Vec<String>)> {
        Out { code: None, signal: None, timed_out: false, stdout: String::new(), stderr: String::new(), log: self.log() }.cmds()
    }
    /// Wait (bounded) until `f` holds of the log.
    pub fn wait_log(&mut self, f: impl Fn(&[Value]) -> bool) -> bool {
        let t = Instant::now();
        loop {
            if f(&self.log()) {
                return true;
            }
            self.pump(1);
            if t.elapsed() > self.timeout {
                return false;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    pub fn send_bytes(&mut self, mut b: &[u8]) {
        while !b.is_empty() {
            match nix::unistd::write(&self.master, b) {
                Ok(n) => b = &b[n..],
                Err(_) => return,
            }
        }
    }
    pub fn resize(&mut self, rows: u16, cols: u16) {
        use std::os::fd::AsRawFd;
        let w = nix::pty::Winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ as _, &w) };
    }
    /// The process group that has the terminal.
    pub fn foreground(&self) -> i32 {
        use std::os::fd::AsRawFd;
        unsafe { libc::tcgetpgrp(self.master.as_raw_fd()) }
    }
    /// Read what is printed while `f` is not true; false if it never is.
    pub fn until(&mut self, limit: Duration, mut f: impl FnMut(&Tty) -> bool) -> bool {
        let t = Instant::now();
        loop {
            if f(self) {
                return true;
            }
            self.pump(3);
            if t.elapsed() > limit {
                return false;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    /// Wait until the shell has ended by itself.
    pub fn ended(&mut self) -> Option<std::process::ExitStatus> {
        let t = Instant::now();
        loop {
            if let Ok(Some(st)) = self.child.try_wait() {
                return Some(st);
            }
            self.pump(1);
            if t.elapsed() > self.timeout {
                return None;
            }
        }
    }
    /// `exit`, and wait.
    pub fn exit(&mut self) -> bool {
        self.send("exit\r");
        self.ended().is_some()
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.buf).into_owned()
    }
}

impl Drop for Tty {
    fn drop(&mut self) {
        // Everything the shell started is in its session: one by one, since each job has a group of its own.
        for _ in 0..3 {
            let mut any = false;
            for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
                let Some(pid) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
                if pid != self.pid && unsafe { libc::getsid(pid) } == self.pid {
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    any = true;
                }
            }
            unsafe { libc::kill(self.pid, libc::SIGKILL) };
            if !any {
                break;
            }
        }
        let _ = self.child.wait();
    }
}
