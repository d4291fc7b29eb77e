//! A terminal as the shell's user has one: the screen with what scrolled off it, the cursor, and
//! wrapping at the right edge (deferred, as VT100 and all its successors do it). Only what the shell
//! prints is known; anything else is recorded in `odd`.
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub text: String,
    pub ghost: bool,
}

pub struct Vt {
    pub cols: usize,
    pub rows: usize,
    /// All lines since the start; the screen is the last `rows` from `top`.
    pub lines: Vec<Vec<Option<Cell>>>,
    pub top: usize,
    pub x: usize,
    pub y: usize, // absolute line
    pub pending: bool,
    fg: Option<u8>,
    bright: bool,
    /// Where the last command-start mark (OSC 133;B) was printed.
    pub mark: Option<(usize, usize)>,
    pub marks: usize,
    pub prompts: usize,
    pub odd: Vec<String>,
    rest: Vec<u8>,
}

impl Vt {
    pub fn new(rows: usize, cols: usize) -> Vt {
        let mut v = Vt { cols, rows, lines: vec![], top: 0, x: 0, y: 0, pending: false, fg: None, bright: false, mark: None, marks: 0, prompts: 0, odd: vec![], rest: vec![] };
        v.grow();
        v
    }
    fn grow(&mut self) {
        while self.lines.len() < self.top + self.rows {
            self.lines.push(vec![None; self.cols]);
        }
    }
    fn down(&mut self) {
        if self.y + 1 >= self.top + self.rows {
            self.top += 1;
            self.grow();
        }
        self.y += 1;
    }
    fn put(&mut self, c: char) {
        let w = c.width().unwrap_or(0);
        if w == 0 {
            // belongs to the character before it
            let x = if self.pending { self.cols } else { self.x };
            for i in (0..x).rev() {
                if let Some(cell) = &mut self.lines[self.y][i] {
                    if !cell.text.is_empty() {
                        cell.text.push(c);
                        return;
                    }
                }
            }
            return;
        }
        if self.pending || self.x + w > self.cols {
            self.down();
            self.x = 0;
            self.pending = false;
        }
        let ghost = self.fg == Some(8) || (self.fg == Some(0) && self.bright);
        let row = &mut self.lines[self.y];
        row[self.x] = Some(Cell { text: c.to_string(), ghost });
        if w == 2 {
            row[self.x + 1] = Some(Cell { text: String::new(), ghost });
        }
        self.x += w;
        if self.x >= self.cols {
            self.x = self.cols - 1;
            self.pending = true;
        }
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        let mut b = std::mem::take(&mut self.rest);
        b.extend_from_slice(bytes);
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                0x1b => {
                    if i + 1 >= b.len() {
                        break;
                    }
                    match b[i + 1] {
                        b'[' => {
                            let Some(n) = b[i + 2..].iter().position(|c| (0x40..0x7f).contains(c)) else { break };
                            let args = String::from_utf8_lossy(&b[i + 2..i + 2 + n]).into_owned();
                            let f = b[i + 2 + n] as char;
                            self.csi(&args, f);
                            i += 3 + n;
                        }
                        b']' => {
                            // ends with BEL or ESC backslash
                            let Some(n) = (i + 2..b.len()).find(|&k| b[k] == 7 || (b[k] == b'\\' && b[k - 1] == 0x1b)) else { break };
                            let s = String::from_utf8_lossy(&b[i + 2..n]).into_owned();
                            if s.starts_with("133;B") {
                                self.mark = Some((self.x, self.y));
                                self.marks += 1;
                            } else if s.starts_with("133;A") {
                                self.prompts += 1;
                            }
                            i = n + 1;
                        }
                        c => {
                            if !matches!(c, b'7' | b'8' | b'=' | b'>') {
                                self.odd.push(format!("ESC {}", c as char));
                            }
                            i += 2;
                        }
                    }
                }
                b'\r' => {
                    self.x = 0;
                    self.pending = false;
                    i += 1;
                }
                b'\n' => {
                    self.down();
                    self.pending = false;
                    i += 1;
                }
                8 => {
                    self.x = self.x.saturating_sub(1);
                    self.pending = false;
                    i += 1;
                }
                7 => i += 1,
                c => {
                    let n = if c < 0x80 { 1 } else if c >= 0xf0 { 4 } else if c >= 0xe0 { 3 } else { 2 };
                    if i + n > b.len() {
                        break;
                    }
                    match std::str::from_utf8(&b[i..i + n]).ok().and_then(|s| s.chars().next()) {
                        Some(ch) if ch == '\t' => {
                            let to = (self.x / 8 + 1) * 8;
                            self.x = to.min(self.cols - 1);
                        }
                        Some(ch) if (ch as u32) < 0x20 => self.odd.push(format!("{:?}", ch)),
                        Some(ch) => self.put(ch),
                        None => self.odd.push("not UTF-8".into()),
                    }
                    i += n;
                }
            }
        }
        self.rest = b[i..].to_vec();
    }
    fn clear(&mut self, y: usize, from: usize, to: usize) {
        for c in &mut self.lines[y][from..to] {
            *c = None;
        }
    }
    fn csi(&mut self, args: &str, f: char) {
        let nums: Vec<usize> = args.trim_start_matches('?').split([';', ':']).map(|s| s.parse().unwrap_or(0)).collect();
        let n0 = nums.first().copied().unwrap_or(0);
        let n = n0.max(1);
        let last = self.top + self.rows - 1;
        match f {
            'A' => self.y = self.y.saturating_sub(n).max(self.top),
            'B' => self.y = (self.y + n).min(last),
            'C' => self.x = (self.x + n).min(self.cols - 1),
            'D' => self.x = self.x.saturating_sub(n),
            'E' => {
                self.y = (self.y + n).min(last);
                self.x = 0;
            }
            'F' => {
                self.y = self.y.saturating_sub(n).max(self.top);
                self.x = 0;
            }
            'G' => self.x = (n - 1).min(self.cols - 1),
            'H' | 'f' => {
                self.y = (self.top + n - 1).min(last);
                self.x = (nums.get(1).copied().unwrap_or(1).max(1) - 1).min(self.cols - 1);
            }
            'J' => match n0 {
                0 => {
                    self.clear(self.y, self.x, self.cols);
                    for y in self.y + 1..=last {
                        self.clear(y, 0, self.cols);
                    }
                }
                1 => {
                    for y in self.top..self.y {
                        self.clear(y, 0, self.cols);
                    }
                    self.clear(self.y, 0, self.x + 1);
                }
                _ => {
                    for y in self.top..=last {
                        self.clear(y, 0, self.cols);
                    }
                }
            },
            'K' => match n0 {
                0 => self.clear(self.y, self.x, self.cols),
                1 => self.clear(self.y, 0, self.x + 1),
                _ => self.clear(self.y, 0, self.cols),
            },
            'm' => {
                let mut it = nums.iter().copied();
                while let Some(a) = it.next() {
                    match a {
                        0 => {
                            self.fg = None;
                            self.bright = false;
                        }
                        1 => self.bright = true,
                        22 => self.bright = false,
                        30..=37 => self.fg = Some((a - 30) as u8),
                        90..=97 => self.fg = Some((a - 90 + 8) as u8),
                        38 => match it.next() {
                            Some(5) => self.fg = it.next().map(|c| c as u8),
                            Some(2) => {
                                it.nth(2);
                                self.fg = Some(255);
                            }
                            _ => {}
                        },
                        39 => self.fg = None,
                        48 => match it.next() {
                            Some(5) => {
                                it.next();
                            }
                            Some(2) => {
                                it.nth(2);
                            }
                            _ => {}
                        },
                        _ => {}
                    }
                }
                return;
            }
            'h' | 'l' | 'n' | 'q' | 'u' | 't' | 'c' => return,
            _ => self.odd.push(format!("CSI {args}{f}")),
        }
        self.pending = false;
    }
    /// The text of a line, without what is only suggested.
    pub fn text(&self, y: usize, ghosts: bool) -> String {
        let Some(row) = self.lines.get(y) else { return String::new() };
        let mut s = String::new();
        for c in row {
            match c {
                Some(c) if ghosts || !c.ghost => s.push_str(&c.text),
                Some(c) => s.push_str(&" ".repeat(if c.text.is_empty() { 0 } else { c.text.chars().map(|c| c.width().unwrap_or(0)).sum() })),
                None => s.push(' '),
            }
        }
        s.trim_end().to_string()
    }
    /// What is printed as a suggestion from line `y` on.
    pub fn ghost(&self, y: usize) -> String {
        self.lines.iter().skip(y).flatten().flatten().filter(|c| c.ghost).map(|c| c.text.as_str()).collect()
    }
    pub fn dump(&self) -> String {
        (0..self.lines.len()).map(|y| self.text(y, true)).collect::<Vec<_>>().join("\n").trim_end().to_string()
    }
}
