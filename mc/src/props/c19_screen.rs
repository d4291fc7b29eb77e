//! C19: what the terminal shows while a line is edited. A real shell on a terminal of each size, every
//! key sequence up to a length from every starting text, and after each key the screen of an emulated
//! terminal against the layout the text has; Enter runs the text that was shown.
use crate::bb::*;
use crate::common::*;
use crate::vt::Vt;
use doge_shell::input::{Input, InputConfig};
use serde_json::json;
use std::time::{Duration, Instant};
use unicode_width::UnicodeWidthChar;

pub fn spec() -> Spec {
    Spec {
        id: "C19",
        level: "model_checking",
        rule: "for every terminal width and starting text (empty, short, exactly filling the first row, wrapped over several rows at letters and at wide letters, with newlines), every key sequence up to the length, then Enter or Ctrl-C; after each key the emulated screen must show exactly prompt mark and text, wrapped as a terminal wraps it, the cursor on its character, nothing else below (suggestions set apart by their colour), and every line above untouched. Non-trivial: the text takes more than one row or holds wide letters.",
        assumptions: &["the terminal wraps with a deferred right margin (VT100 and its successors)", "what the editing operations do to the text is C17's matter: the same `Input` gives the expected text here", "keys arrive one at a time, each after the screen has answered to the one before"],
        shards: 16,
        hang_s: 120,
        run,
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum K {
    Ins(&'static str),
    Paste(&'static str),
    Left,
    Right,
    WordLeft,
    WordRight,
    Begin,
    End,
    Bs,
    DelWord,
    KillEnd,
    KillBegin,
    Clear,
}

const KEYS: &[(&str, K, &str)] = &[
    ("x", K::Ins("x"), "x"),
    ("あ", K::Ins("あ"), "あ"),
    ("blank", K::Ins(" "), " "),
    ("Left", K::Left, "\x1b[D"),
    ("Right", K::Right, "\x1b[C"),
    ("C-Left", K::WordLeft, "\x1b[1;5D"),
    ("^A", K::Begin, "\x01"),
    ("^E", K::End, "\x05"),
    ("BS", K::Bs, "\x7f"),
    ("^W", K::DelWord, "\x17"),
    ("^K", K::KillEnd, "\x0b"),
    ("^U", K::KillBegin, "\x15"),
    ("paste", K::Paste("p\nqあ"), "\x1b[200~p\nqあ\x1b[201~"),
    ("^L", K::Clear, "\x0c"),
    ("C-Right", K::WordRight, "\x1b[1;5C"),
];

const WIDTHS: &[u16] = &[24, 13, 40];
const TEXTS: &[&str] = &[
    "",
    "rec a",
    "rec あ b c",
    "rec 456789abc defghijkl 0123 5678 abcdefgh",
    "rec 4567 9",
    "rec 4567 90",
    "rec 4567 9あ",
    "rec 4567 90123 45678",
    "rec 4567 90123 456789",
    "rec あああああああああああああ",
    "rec \"a",
    "rec a | ",
    "rec $( b",
    "rec a | re",
    "rec \"あいうえおか\" | fl",
    "rec a\nrec b",
    "rec 456789abcdefghi\n\nrec b あいう",
];

struct Edit(Input);
impl Edit {
    fn key(&mut self, k: K) {
        let i = &mut self.0;
        match k {
            K::Ins(s) => i.insert(s.chars().next().unwrap()),
            K::Paste(s) => i.insert_str(s),
            K::Left => i.move_by(-1),
            K::Right => i.move_by(1),
            K::WordLeft => i.move_word_left(),
            K::WordRight => i.move_word_right(),
            K::Begin => i.move_to_begin(),
            K::End => i.move_to_end(),
            K::Bs => i.backspace(),
            K::DelWord => i.delete_word_backward(),
            K::KillEnd => i.delete_to_end(),
            K::KillBegin => i.delete_to_beginning(),
            // the screen and the line
            K::Clear => i.clear(),
        }
    }
}

/// The rows a text takes after a prompt of width `mark`, and where the cursor before character `cur` stands.
fn layout(text: &str, cur: usize, mark: usize, cols: usize) -> (Vec<String>, Vec<(usize, usize)>) {
    let mut rows = vec![String::new()];
    let mut x = mark;
    let mut at = vec![];
    for (i, c) in text.chars().chain([' ']).enumerate() {
        let w = if c == '\n' { 0 } else { c.width().unwrap_or(0) };
        let end = i == text.chars().count();
        let before = (x.min(cols - 1), rows.len() - 1);
        if c != '\n' && x + w > cols {
            if !end {
                rows.push(String::new());
            }
            if i == cur {
                // the margin of a full row is the start of the next one
                at.push(before);
                at.push((0, before.1 + 1));
            }
            x = 0;
        } else if i == cur {
            at.push(before);
        }
        if end {
            break;
        }
        if c == '\n' {
            rows.push(String::new());
            x = 0;
        } else {
            rows.last_mut().unwrap().push(c);
            x += w;
        }
    }
    (rows, at)
}

struct S {
    sh: Sh,
    t: Option<Tty>,
    vt: Vt,
    fed: usize,
    cols: u16,
    /// What ran in this session: suggestions come from it.
    ran: Vec<String>,
    used: usize,
}

impl S {
    fn sync(&mut self, ms: i32) -> bool {
        let t = self.t.as_mut().unwrap();
        let alive = t.read_some(ms);
        self.vt.feed(&t.buf[self.fed..]);
        self.fed = t.buf.len();
        alive
    }
    fn start(&mut self, cols: u16) -> Result<(), String> {
        self.t = None;
        self.ran.clear();
        let _ = std::fs::remove_dir_all(self.sh.home.join("data"));
        self.sh.size = (12, cols);
        self.t = Some(self.sh.tty());
        self.vt = Vt::new(12, cols as usize);
        self.fed = 0;
        self.cols = cols;
        self.used = 0;
        // something above the prompt that must stay
        for i in 0..3 {
            self.at_prompt(i)?;
            self.t.as_mut().unwrap().send(&format!("say line{i}\r"));
        }
        self.at_prompt(3)
    }
    /// Wait until the prompt number `n` (from 0) of this shell has been printed.
    fn at_prompt(&mut self, n: usize) -> Result<(), String> {
        let t0 = Instant::now();
        while self.vt.prompts <= n || self.vt.x < MARK_W || !self.vt.text(self.vt.y, true).starts_with(MARK.trim_end()) {
            if !self.sync(20) || t0.elapsed() > Duration::from_secs(20) {
                return Err(format!("no prompt; the screen:\n{}", self.vt.dump()));
            }
        }
        Ok(())
    }
    /// What is wrong with the screen now.
    fn wrong(&self, e: &Edit, base: usize, above: &[String]) -> Option<String> {
        let v = &self.vt;
        let cols = self.cols as usize;
        let (rows, at) = layout(e.0.as_str(), e.0.cursor(), MARK_W, cols);
        for (y, a) in above.iter().enumerate() {
            if v.text(y, true) != *a {
                return Some(format!("line {y} above the prompt was {a:?}, is {:?}", v.text(y, true)));
            }
        }
        for (i, r) in rows.iter().enumerate() {
            let want = if i == 0 { format!("{MARK}{r}") } else { r.clone() };
            if v.text(base + i, false) != want.trim_end() {
                return Some(format!("row {i} of the line should show {:?}, shows {:?}", want.trim_end(), v.text(base + i, false)));
            }
        }
        for y in base + rows.len()..v.lines.len() {
            let s = v.text(y, false);
            if !s.is_empty() {
                return Some(format!("{s:?} is left below the line, {} rows after its start", y - base));
            }
        }
        if v.y < base || !at.contains(&(v.x, v.y - base)) {
            return Some(format!("the cursor is in column {} of row {}, should be in {at:?}", v.x, v.y as isize - base as isize));
        }
        None
    }
    /// The suggestion shown, once nothing more is printed.
    fn shown(&mut self, base: usize) -> String {
        loop {
            let n = self.fed;
            self.sync(15);
            if self.fed == n {
                return self.vt.ghost(base);
            }
        }
    }
    /// Wait for the screen to show one of the possible texts; the first that it shows comes first then.
    fn settle(&mut self, es: &mut [Edit], base: usize, above: &[String]) -> Result<(), String> {
        let t0 = Instant::now();
        loop {
            let mut wrong = None;
            for i in 0..es.len() {
                match self.wrong(&es[i], base, above) {
                    None => {
                        es.swap(0, i);
                        return Ok(());
                    }
                    w => wrong = wrong.or(w),
                }
            }
            let w = wrong.unwrap();
            let alive = self.sync(10);
            if !alive {
                return Err("the shell is gone".into());
            }
            // long enough for a loaded machine: nothing is decided by it on a screen that is right
            if t0.elapsed() > Duration::from_secs(6) {
                return Err(w);
            }
        }
    }
    fn case(&mut self, text: &str, keys: &[usize]) -> Result<bool, String> {
        // more than one while a key may or may not have taken what was suggested: a later screen tells
        let mut es = vec![Edit(Input::new(InputConfig::default()))];
        let n = self.vt.prompts;
        let mut base = self.vt.y;
        let mut above: Vec<String> = (0..base).map(|y| self.vt.text(y, true)).collect();
        let mut multi = false;
        if !text.is_empty() {
            if text.contains('\n') {
                self.t.as_mut().unwrap().send(&format!("\x1b[200~{text}\x1b[201~"));
            } else {
                self.t.as_mut().unwrap().send(text);
            }
            es[0].0.insert_str(text);
            self.settle(&mut es, base, &above).map_err(|m| format!("after the text: {m}"))?;
        }
        for (i, &k) in keys.iter().enumerate() {
            let (name, act, bytes) = KEYS[k];
            let prompts = self.vt.prompts;
            // these take what is suggested, if they take anything
            let takes = matches!(act, K::Right | K::WordRight | K::End);
            let more = if takes && es.iter().any(|e| e.0.cursor() == e.0.len()) { self.shown(base) } else { String::new() };
            self.settle(&mut es, base, &above).map_err(|m| format!("before key {} ({name}): {m}", i + 1))?;
            self.t.as_mut().unwrap().send(bytes);
            if !more.is_empty() && es[0].0.cursor() == es[0].0.len() {
                es.truncate(1);
                let e = es.pop().unwrap();
                let old = e.0.as_str().to_string();
                for (i, _) in more.char_indices().chain([(more.len(), ' ')]) {
                    if act == K::WordRight || i == more.len() || (i == 0 && act == K::End) {
                        let mut e = Edit(Input::new(InputConfig::default()));
                        e.0.insert_str(&format!("{old}{}", &more[..i]));
                        es.push(e);
                    }
                }
            } else {
                es.iter_mut().for_each(|e| e.key(act));
            }
            if act == K::Clear {
                // the screen starts anew, with the prompt on top
                self.at_prompt(prompts)?;
                let t0 = Instant::now();
                loop {
                    // what precedes the line on the cleared screen is the prompt's own first line
                    base = (self.vt.top..self.vt.lines.len()).find(|y| self.vt.text(*y, true).starts_with(MARK.trim_end())).unwrap_or(self.vt.top);
                    above = (0..base).map(|y| self.vt.text(y, true)).collect();
                    if es.iter().any(|e| self.wrong(e, base, &above).is_none()) {
                        break;
                    }
                    if !self.sync(10) || t0.elapsed() > Duration::from_secs(6) {
                        break;
                    }
                }
            }
            let settled = self.settle(&mut es, base, &above);
            let e = &es[0];
            settled.map_err(|m| format!("after key {} ({name}), with {more:?} suggested before it, text {:?} cursor {}: {m}\n{}", i + 1, e.0.as_str(), e.0.cursor(), self.vt.dump()))?;
            multi |= e.0.as_str().chars().any(|c| c == '\n' || c.width() == Some(2)) || layout(e.0.as_str(), 0, MARK_W, self.cols as usize).0.len() > 1;
        }
        if es.len() > 1 {
            self.shown(base);
            self.settle(&mut es, base, &above)?;
        }
        let n2 = self.vt.prompts;
        let _ = n;
        let end = es[0].0.as_str().to_string();
        let plain = end.chars().all(|c| c.is_alphanumeric() || c == ' ');
        let words: Vec<String> = end.split(' ').filter(|w| !w.is_empty()).map(String::from).collect();
        let run = plain && es.len() == 1 && !words.is_empty() && (keys.iter().sum::<usize>() % 3 == 0 || words[0] != "rec");
        let t = self.t.as_mut().unwrap();
        if run {
            let before = t.cmds().len();
            t.send("\r");
            self.ran.push(end.clone());
            self.at_prompt(n2)?;
            let got: Vec<Vec<String>> = self.t.as_ref().unwrap().cmds()[before..].iter().map(|(c, a)| std::iter::once(c.clone()).chain(a.iter().cloned()).collect()).collect();
            let want = if words[0] == "rec" { vec![words.clone()] } else { vec![] };
            if got != want {
                return Err(format!("Enter on {end:?} ran {got:?}"));
            }
            // what was printed before the prompt is still there, then the line, once
            for (y, a) in above.iter().enumerate().take(base.saturating_sub(1)) {
                if self.vt.text(y, true) != *a {
                    return Err(format!("after Enter on {end:?}: line {y} above the prompt was {a:?}, is {:?}\n{}", self.vt.text(y, true), self.vt.dump()));
                }
            }
            let (rows, _) = layout(&end, 0, "❯ ".chars().count(), self.cols as usize);
            let first = base.saturating_sub(1);
            let shown: Vec<String> = (first..first + rows.len()).map(|y| self.vt.text(y, true)).collect();
            let want: Vec<String> = rows.iter().enumerate().map(|(i, r)| if i == 0 { format!("❯ {r}").trim_end().to_string() } else { r.trim_end().to_string() }).collect();
            if shown != want {
                return Err(format!("after Enter the line shows as {shown:?}, should be {want:?}\n{}", self.vt.dump()));
            }
        } else {
            // a key in between, since two in a row end the shell
            t.send("\x03");
            self.at_prompt(n2)?;
            for (y, a) in above.iter().enumerate() {
                if self.vt.text(y, true) != *a {
                    return Err(format!("after Ctrl-C: line {y} above the prompt was {a:?}, is {:?}", self.vt.text(y, true)));
                }
            }
            self.t.as_mut().unwrap().send("\x1b[D");
        }
        if let Some(o) = self.vt.odd.first() {
            return Err(format!("{o} was printed"));
        }
        Ok(multi)
    }
}

const MARK: &str = "🐕 < ";
const MARK_W: usize = 5;

fn names(keys: &[usize]) -> String {
    keys.iter().map(|k| KEYS[*k].0).collect::<Vec<_>>().join(" ")
}

fn run(c: &mut Ctx) {
    let mut sh = Sh::new(&c.scratch);
    sh.env.push(("XDG_DATA_HOME".into(), sh.home.join("data").display().to_string()));
    sh.only_stubs = true;
    let mut s = S { sh, t: None, vt: Vt::new(12, 24), fed: 0, cols: 0, ran: vec![], used: 0 };
    if let Some(o) = c.only.clone() {
        let keys: Vec<usize> = serde_json::from_value(o["keys"].clone()).unwrap();
        let text = o["text"].as_str().unwrap().to_string();
        let cols = o["cols"].as_u64().unwrap() as u16;
        let ran: Vec<String> = serde_json::from_value(o["ran"].clone()).unwrap_or_default();
        let before = |s: &mut S| -> Result<(), String> {
            s.start(cols)?;
            for l in &ran {
                let n = s.vt.prompts;
                s.t.as_mut().unwrap().send(&format!("\x1b[200~{l}\x1b[201~\r"));
                s.at_prompt(n)?;
            }
            Ok(())
        };
        match before(&mut s).and_then(|_| s.case(&text, &keys)) {
            Ok(n) => c.eval((&text, &keys), n),
            Err(m) => c.violation(format!("keys:{cols}:{text:?}:{}", names(&keys)), m, o),
        }
        return;
    }
    let len = if c.thorough() { 3 } else { 2 };
    for &cols in if c.thorough() { WIDTHS } else { &WIDTHS[..2] } {
        for text in TEXTS {
            sequences(KEYS.len(), 1, |head| {
                if !c.mine() {
                    return;
                }
                for l in 0..len {
                    sequences(KEYS.len(), l, |tail| {
                        if c.violations.len() >= 3 {
                            return;
                        }
                        let keys: Vec<usize> = head.iter().chain(tail).copied().collect();
                        c.begin(&format!("{cols} {text:?} {}", names(&keys)));
                        if s.t.is_none() || s.cols != cols || s.used > 150 {
                            if let Err(m) = s.start(cols) {
                                c.violation("start", m, json!({"text": "", "keys": [], "cols": cols}));
                                return;
                            }
                        }
                        s.used += 1;
                        c.traces += 1;
                        c.transitions += keys.len() as u64 + 1;
                        c.state((cols, text, &keys));
                        let ran = s.ran.clone();
                        match s.case(text, &keys) {
                            Ok(n) => c.eval((cols, text, &keys), n),
                            Err(m) => {
                                s.t = None;
                                c.violation(format!("keys:{cols}:{text:?}:{}", names(&keys)), format!("{cols} columns, text {text:?}, keys {}: {m}", names(&keys)), json!({"text": text, "keys": keys, "cols": cols, "ran": ran}));
                            }
                        }
                    });
                }
            });
        }
    }
    c.sample(json!({"texts": TEXTS, "keys": KEYS.iter().map(|k| k.0).collect::<Vec<_>>(), "widths": WIDTHS}));
}
