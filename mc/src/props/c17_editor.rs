//! C17: the line editor. Every text up to a length over an alphabet of character classes (ASCII,
//! blank, newline, separator, wide, astral, zero-width), every cursor, every operation, and every
//! pair of operations on the shorter texts; the real `Input` against a character-vector model.
use crate::common::*;
use doge_shell::input::{Input, InputConfig};
use serde_json::json;
use unicode_width::UnicodeWidthChar;

pub fn spec() -> Spec {
    Spec {
        id: "C17",
        level: "model_checking",
        rule: "every (text, cursor) state over the alphabet {a, blank, newline, '|', wide, astral, combining} up to the length bound, reached by real insertions, every editing operation from it (pairs and triples of operations on shorter texts), and every observer compared with the model after each step. Non-trivial: the text holds a multi-byte or zero-width character or the operation is a word/range operation in mid-text.",
        assumptions: &["the model's state is (characters, cursor); the real object's derived fields (byte index, cached width) are compared with it after every operation, so equal states behave equally", "display widths are those of the unicode-width crate"],
        shards: 8,
        hang_s: 60,
        run,
    }
}

const ALPHA: &[char] = &['a', ' ', 'あ', '\n', '😀', '\u{301}', '|'];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Ins(char),
    InsStr(&'static str),
    Backspace,
    BackspaceN(usize),
    Delete,
    Move(isize),
    Begin,
    End,
    WordLeft,
    WordRight,
    DelWord,
    KillEnd,
    KillBegin,
    Replace(usize, usize, &'static str),
    Reset(&'static str),
    Clear,
    CursorAt(usize),
    Abbr(&'static str),
}

fn ops() -> Vec<Op> {
    use Op::*;
    let mut v: Vec<Op> = ALPHA.iter().map(|&c| Ins(c)).collect();
    v.extend([
        InsStr(""),
        InsStr("xy"),
        InsStr("aあ😀"),
        // sequences whose string width differs from the sum of their characters'
        InsStr("x\ny"),
        InsStr("❤\u{fe0f}"),
        InsStr("👩\u{200d}🔬"),
        Backspace,
        BackspaceN(0),
        BackspaceN(2),
        BackspaceN(9),
        Delete,
        Move(1),
        Move(-1),
        Move(2),
        Move(-2),
        Move(99),
        Move(-99),
        Begin,
        End,
        WordLeft,
        WordRight,
        DelWord,
        KillEnd,
        KillBegin,
        Reset(""),
        Reset("zあ b"),
        Clear,
        Abbr(""),
        Abbr("g あ"),
        Abbr("\n❤\u{fe0f}"),
        Reset("❤\u{fe0f}\nb"),
    ]);
    for w in 0..6 {
        v.push(CursorAt(w));
    }
    for s in 0..4 {
        for e in 0..5 {
            v.push(Replace(s, e, if (s + e) % 2 == 0 { "お" } else { "" }));
        }
    }
    v
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct M {
    t: Vec<char>,
    c: usize,
}

fn w(c: char) -> usize {
    c.width().unwrap_or(0)
}

fn abbr_word(m: &M) -> Option<(usize, String)> {
    let mut s = m.c;
    while s > 0 && !(m.t[s - 1].is_whitespace() || "|&;()".contains(m.t[s - 1])) {
        s -= 1;
    }
    let word: String = m.t[s..m.c].iter().collect();
    if word.is_empty() { None } else { Some((s, word)) }
}

/// Model step; the bool is the expected boolean result for operations that have one.
fn step(m: &mut M, op: &Op) -> Option<bool> {
    use Op::*;
    match op {
        Ins(c) => {
            m.t.insert(m.c, *c);
            m.c += 1;
        }
        InsStr(s) => {
            for ch in s.chars() {
                m.t.insert(m.c, ch);
                m.c += 1;
            }
        }
        Backspace => {
            if m.c > 0 {
                m.c -= 1;
                m.t.remove(m.c);
            }
        }
        BackspaceN(n) => {
            for _ in 0..*n {
                step(m, &Backspace);
            }
        }
        Delete => {
            if m.c < m.t.len() {
                m.t.remove(m.c);
            }
        }
        Move(d) => m.c = (m.c as isize + d).clamp(0, m.t.len() as isize) as usize,
        Begin => m.c = 0,
        End => m.c = m.t.len(),
        WordLeft => {
            while m.c > 0 && m.t[m.c - 1].is_whitespace() {
                m.c -= 1;
            }
            while m.c > 0 && !m.t[m.c - 1].is_whitespace() {
                m.c -= 1;
            }
        }
        WordRight => {
            while m.c < m.t.len() && !m.t[m.c].is_whitespace() {
                m.c += 1;
            }
            while m.c < m.t.len() && m.t[m.c].is_whitespace() {
                m.c += 1;
            }
        }
        DelWord => {
            let end = m.c;
            step(m, &WordLeft);
            m.t.drain(m.c..end);
        }
        KillEnd => m.t.truncate(m.c),
        KillBegin => {
            m.t.drain(..m.c);
            m.c = 0;
        }
        Replace(s, e, r) => {
            if s > e || *e > m.t.len() {
                return Some(false);
            }
            m.t.splice(*s..*e, r.chars());
            m.c = s + r.chars().count();
            return Some(true);
        }
        Reset(s) => {
            m.t = s.chars().collect();
            m.c = m.t.len();
        }
        Clear => {
            m.t.clear();
            m.c = 0;
        }
        CursorAt(target) => {
            // the boundary whose column is nearest to the click; a tie goes right, and among
            // boundaries in the same column (zero-width characters) the last one
            let mut col = 0;
            let mut best = 0;
            for (i, &ch) in m.t.iter().enumerate() {
                if 2 * target < 2 * col + w(ch) {
                    break;
                }
                col += w(ch);
                best = i + 1;
            }
            m.c = best;
        }
        Abbr(x) => {
            let Some((s, _)) = abbr_word(m) else { return Some(false) };
            m.t.splice(s..m.c, x.chars());
            m.c = s + x.chars().count();
            return Some(true);
        }
    }
    None
}

fn real(i: &mut Input, op: &Op) -> Option<bool> {
    use Op::*;
    match op {
        Ins(c) => i.insert(*c),
        InsStr(s) => i.insert_str(s),
        Backspace => i.backspace(),
        BackspaceN(n) => i.backspacen(*n),
        Delete => i.delete_char(),
        Move(d) => i.move_by(*d),
        Begin => i.move_to_begin(),
        End => i.move_to_end(),
        WordLeft => i.move_word_left(),
        WordRight => i.move_word_right(),
        DelWord => i.delete_word_backward(),
        KillEnd => i.delete_to_end(),
        KillBegin => i.delete_to_beginning(),
        Replace(s, e, r) => return Some(i.replace_range_chars(*s, *e, r)),
        Reset(s) => i.reset(s.to_string()),
        Clear => i.clear(),
        CursorAt(t) => i.set_cursor_from_display_width(*t),
        Abbr(x) => return Some(i.replace_current_word(x)),
    }
    None
}

/// Column and line reached after writing `t` with the prompt's width, wrapping at `columns`.
fn layout(t: &[char], columns: usize, prompt: usize) -> (usize, usize) {
    let (mut col, mut line) = (prompt, 0);
    for &ch in t {
        if ch == '\n' {
            col = 0;
            line += 1;
        } else if columns > 0 && col + w(ch) > columns {
            col = w(ch);
            line += 1;
        } else {
            col += w(ch);
        }
    }
    (col, line)
}

fn observe(i: &Input, m: &M) -> Result<(), String> {
    let s: String = m.t.iter().collect();
    if i.as_str() != s || i.cursor() != m.c {
        return Err(format!("text {:?} cursor {}, expected {:?} cursor {}", i.as_str(), i.cursor(), s, m.c));
    }
    if i.len() != m.t.len() || i.is_empty() != m.t.is_empty() || i.to_string() != s {
        return Err(format!("length {} for {s:?}", i.len()));
    }
    let width: usize = m.t.iter().map(|&c| w(c)).sum();
    if i.display_width() != width {
        return Err(format!("display width {} for {s:?}, expected {width}", i.display_width()));
    }
    for k in 0..=m.t.len() + 1 {
        if i.char_at(k) != m.t.get(k).copied() {
            return Err(format!("char_at({k}) = {:?} in {s:?}", i.char_at(k)));
        }
    }
    for columns in [0, 3, 4, 80] {
        for prompt in [0, 2] {
            let want = layout(&m.t[..m.c], columns, prompt);
            let got = i.cursor_pos(columns, prompt);
            if got != want {
                return Err(format!("cursor_pos({columns},{prompt}) = {got:?} for {s:?}@{}, expected {want:?}", m.c));
            }
            let lines = layout(&m.t, columns, prompt).1 + 1;
            if i.line_count(columns, prompt) != lines {
                return Err(format!("line_count({columns},{prompt}) = {} for {s:?}, expected {lines}", i.line_count(columns, prompt)));
            }
        }
    }
    let pre: String = m.t[..m.c].iter().collect();
    let post: String = m.t[m.c..].iter().collect();
    let want = if post.is_empty() { None } else { Some((pre.as_str(), post.as_str())) };
    if i.split_current_pos() != want {
        return Err(format!("split_current_pos = {:?}, expected {want:?}", i.split_current_pos()));
    }
    let word = abbr_word(m).map(|x| x.1);
    if i.get_current_word_for_abbr() != word {
        return Err(format!("word before cursor = {:?} in {s:?}@{}, expected {word:?}", i.get_current_word_for_abbr(), m.c));
    }
    // what is drawn is the text
    let mut out = vec![];
    i.print(&mut out, None);
    let drawn = strip(&String::from_utf8_lossy(&out));
    if drawn.replace("\r\n", "\n") != s {
        return Err(format!("drawn {drawn:?} for text {s:?}"));
    }
    Ok(())
}

fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn apply(c: &mut Ctx, i: &mut Input, m: &mut M, op: &Op) -> Result<(), String> {
    let before = m.clone();
    let want = step(m, op);
    let r = catch(|| {
        let b = real(i, op);
        observe(i, m)?;
        Ok::<_, String>(b)
    });
    c.transitions += 1;
    c.state((&m.t, m.c));
    match r {
        Ok(Ok(b)) if b == want => Ok(()),
        Ok(Ok(b)) => Err(format!("{op:?} on {before:?} returned {b:?}, expected {want:?}")),
        Ok(Err(e)) => Err(format!("{op:?} on {before:?}: {e}")),
        Err(p) => Err(format!("{op:?} on {before:?} panicked: {p}")),
    }
}

fn run(c: &mut Ctx) {
    let ops = ops();
    let (len1, len2, len3) = if c.thorough() { (5, 3, 2) } else { (4, 2, 1) };
    let replay = c.only.clone();
    for len in 0..=len1 {
        sequences(ALPHA.len(), len, |s| {
            if !c.mine() {
                return;
            }
            let t: Vec<char> = s.iter().map(|&i| ALPHA[i]).collect();
            for cur in 0..=len {
                let m = M { t: t.clone(), c: cur };
                // reach the state by real operations: type the tail, go home, type the head
                let mut i = Input::new(InputConfig::default());
                for &ch in &t[cur..] {
                    i.insert(ch);
                }
                i.move_to_begin();
                for &ch in &t[..cur] {
                    i.insert(ch);
                }
                let key = format!("{m:?}");
                c.begin(&key);
                if let Err(e) = catch(|| observe(&i, &m)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                    c.violation(format!("type:{key}"), format!("typing {m:?}: {e}"), json!({"text": t.iter().collect::<String>(), "cursor": cur}));
                    continue;
                }
                c.traces += 1;
                explore(c, &ops, &i, &m, if len <= len3 { 3 } else if len <= len2 { 2 } else { 1 }, &mut vec![], &key, &replay);
            }
        });
    }
}

fn explore(c: &mut Ctx, ops: &[Op], i: &Input, m: &M, depth: usize, path: &mut Vec<String>, start: &str, replay: &Option<serde_json::Value>) {
    for op in ops {
        let mut i2 = i.clone();
        let mut m2 = m.clone();
        path.push(format!("{op:?}"));
        let skip = replay.as_ref().is_some_and(|r| r["start"] != json!(start) || r["ops"].as_array().is_none_or(|a| a.len() < path.len() || a[path.len() - 1] != json!(path[path.len() - 1])));
        if !skip {
            let r = apply(c, &mut i2, &mut m2, op);
            c.eval((start, &*path), m.t.iter().any(|x| !x.is_ascii()) && !m.t.is_empty());
            match r {
                Err(e) => c.violation(format!("{start}:{}", path.join(",")), format!("from {start} after {}: {e}", path.join(", ")), json!({"start": start, "ops": path.clone()})),
                Ok(()) => {
                    c.traces += 1;
                    if depth > 1 {
                        explore(c, ops, &i2, &m2, depth - 1, path, start, replay);
                        if path.len() == 1 && m.t.len() > 1 {
                            c.sample(json!({"start": start, "ops": path.clone()}));
                        }
                    }
                }
            }
        }
        path.pop();
    }
}
