//! C16: notebooks. Every document assembled from line shapes up to a length is loaded and saved
//! back; every recording session up to a depth over every starting document is replayed on the real
//! notebook and its file, against a list-of-blocks model.
use crate::common::*;
use dsh_types::notebook::{BlockKind, Notebook, NotebookSession};
use serde_json::json;

pub fn spec() -> Spec {
    Spec {
        id: "C16",
        level: "model_checking",
        rule: "(1) every document of up to N lines over 19 line shapes, with LF and with CRLF line ends (headings, text, fences of several lengths and languages, nested list/quote/html/indented constructs, blank lines, missing final newline): load partitions it, save reproduces it, and for documents of plain text and fences the code blocks found are those of the CommonMark fence rule; (2) every session of record-code / record-output / reopen operations up to the depth over every starting document. Non-trivial: the document has a fence, or a session records text containing a fence.",
        assumptions: &["recorded text is free of carriage returns; starting documents end outside any unclosed construct in part 2"],
        shards: 8,
        hang_s: 60,
        run,
    }
}

const LINES: &[&str] = &[
    "text\n", "```\n", "```bash\n", "```text\n", "````sh\n", "````\n", "~~~\n", "\n", "# H あ\n", "    ind\n", "- it\n", "  ```sh\n", "> ```\n", "<!-- x\n", "end", "x `y` ```z\n", "a ``` b", "```textile\n", "~~~ py x\n",
];
/// shapes outside the plain-text-and-fences subset
const NESTED: &[usize] = &[9, 10, 12, 13];

/// Top-level fenced blocks of a document made of plain lines and fences: (language, body).
fn fences(doc: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut open: Option<(char, usize, String, Vec<String>, usize)> = None;
    for line in doc.split_inclusive('\n') {
        let line = line.strip_suffix('\n').unwrap_or(line);
        let ind = line.len() - line.trim_start_matches(' ').len();
        let t = &line[ind..];
        let f = t.chars().next().filter(|c| "`~".contains(*c));
        let n = f.map_or(0, |f| t.chars().take_while(|c| *c == f).count());
        if let Some((oc, on, lang, mut body, oi)) = open.take() {
            if f == Some(oc) && n >= on && t[n..].trim().is_empty() && ind < 4 {
                out.push((lang, body.join("\n")));
            } else {
                let strip = oi.min(line.len() - line.trim_start_matches(' ').len());
                body.push(line[strip..].to_string());
                open = Some((oc, on, lang, body, oi));
            }
        } else if n >= 3 && ind < 4 && !(f == Some('`') && t[n..].contains('`')) {
            open = Some((f.unwrap(), n, t[n..].trim().to_string(), vec![], ind));
        }
    }
    if let Some((_, _, lang, body, _)) = open {
        out.push((lang, body.join("\n")));
    }
    out
}

fn docs(c: &mut Ctx) {
    let depth = if c.thorough() { 5 } else { 4 };
    let path = c.scratch.join("doc.md");
    let replay = c.only.clone();
    for len in 0..=depth {
        sequences(LINES.len(), len, |s| {
            if !c.mine() {
                return;
            }
            let doc: String = s.iter().map(|&i| LINES[i]).collect();
            if let Some(r) = &replay {
                if r["doc"] != json!(doc) && r["doc"] != json!(doc.replace('\n', "\r\n")) {
                    return;
                }
            }
            one_doc(c, &path, &doc, plain(s));
            if doc.contains('\n') {
                one_doc(c, &path, &doc.replace('\n', "\r\n"), plain(s));
            }
        });
    }
}

fn plain(s: &[usize]) -> bool {
    !s.iter().any(|i| NESTED.contains(i))
}

fn one_doc(c: &mut Ctx, path: &std::path::Path, doc: &str, plain: bool) {
    let unix = doc.replace('\r', "");
    c.begin(doc);
    let want = fences(&unix);
            let r = catch(|| -> Result<(), String> {
                std::fs::write(path, doc).unwrap();
                let nb = Notebook::load_from_file(path).map_err(|e| e.to_string())?;
                let cat: String = nb.blocks.iter().map(|b| b.content.as_str()).collect();
                if cat != doc {
                    return Err(format!("the loaded blocks spell {cat:?}"));
                }
                nb.save_to_file().map_err(|e| e.to_string())?;
                let back = std::fs::read_to_string(path).unwrap();
                if back != doc {
                    return Err(format!("saving it back wrote {back:?}"));
                }
                if plain {
                    let got: Vec<(String, String)> = nb
                        .blocks
                        .iter()
                        .filter_map(|b| match &b.kind {
                            BlockKind::Code(l) => Some((l.clone(), b.raw_content())),
                            BlockKind::Output => Some(("text".into(), b.raw_content())),
                            BlockKind::Markdown => None,
                        })
                        .collect();
                    let norm = |v: &[(String, String)]| v.iter().map(|(l, b)| (l.clone(), b.trim().lines().map(|x| x.trim_start().to_string()).collect::<Vec<_>>())).collect::<Vec<_>>();
                    if norm(&got) != norm(&want) {
                        return Err(format!("code blocks {got:?}, expected {want:?}"));
                    }
                }
                Ok(())
            });
            c.transitions += 2;
            c.state(("doc", doc));
            c.traces += 1;
            c.eval(("doc", doc), !want.is_empty());
            if want.len() == 2 {
                c.sample(json!({"document": doc, "blocks": want}));
            }
            if let Err(e) = r.unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                c.violation(format!("doc:{doc:?}"), format!("document {doc:?}: {e}"), json!({"doc": doc}));
            }
}

const TEXTS: &[&str] = &["ls", "  echo あ  ", "a\n```\nb", "```bash\nx\n```", "```", "~~~", "echo ````", "", "# t\n\n    ind", "\n\nx\n\n", "<!-- c", "- l\n  - m"];
const START: &[Option<&str>] = &[None, Some(""), Some("# Title\n"), Some("no newline"), Some("```bash\nold\n```\n"), Some("- item"), Some("~~~text\n```\n~~~"), Some("> quote\n")];

fn start_blocks(s: Option<&str>) -> Vec<(bool, String)> {
    match s {
        Some("```bash\nold\n```\n") => vec![(true, "old".into())],
        Some("~~~text\n```\n~~~") => vec![(false, "```".into())],
        _ => vec![],
    }
}

fn sessions(c: &mut Ctx) {
    let depth = if c.thorough() { 3 } else { 2 };
    let k = TEXTS.len() * 2 + 1;
    let path = c.scratch.join("session.md");
    let replay = c.only.clone();
    for (si, st) in START.iter().enumerate() {
        for len in 1..=depth {
            sequences(k, len, |s| {
                if !c.mine() {
                    return;
                }
                if let Some(r) = &replay {
                    if r["start"] != json!(si) || r["ops"] != json!(s) {
                        return;
                    }
                }
                let id = format!("{st:?} {s:?}");
                c.begin(&id);
                let _ = std::fs::remove_file(&path);
                if let Some(t) = st {
                    std::fs::write(&path, t).unwrap();
                }
                let r = catch(|| -> Result<(), String> {
                    let mut sess = NotebookSession::new(path.clone()).map_err(|e| e.to_string())?;
                    let mut model = start_blocks(*st);
                    let mut bytes = st.unwrap_or("").to_string();
                    for &op in s {
                        if op == k - 1 {
                            sess = NotebookSession::new(path.clone()).map_err(|e| e.to_string())?;
                        } else {
                            let t = TEXTS[op / 2];
                            let code = op % 2 == 0;
                            if code {
                                sess.notebook.append_code(t).map_err(|e| e.to_string())?;
                                model.push((true, t.trim().to_string()));
                            } else {
                                sess.notebook.append_output(t).map_err(|e| e.to_string())?;
                                model.push((false, t.trim_end().to_string()));
                            }
                        }
                        let now = std::fs::read_to_string(&path).unwrap_or_default();
                        if !now.starts_with(&bytes) {
                            return Err(format!("recording rewrote earlier content: {bytes:?} became {now:?}"));
                        }
                        bytes = now.clone();
                        let view = |nb: &Notebook| {
                            nb.blocks
                                .iter()
                                .filter_map(|b| match &b.kind {
                                    BlockKind::Code(l) if l == "bash" => Some((true, b.raw_content())),
                                    BlockKind::Code(l) => Some((true, format!("language {l:?}"))),
                                    BlockKind::Output => Some((false, b.raw_content())),
                                    BlockKind::Markdown => None,
                                })
                                .collect::<Vec<_>>()
                        };
                        let disk = view(&Notebook::load_from_file(&path).map_err(|e| e.to_string())?);
                        if disk != model {
                            return Err(format!("the file reads back as {disk:?}, recorded {model:?}"));
                        }
                        let mem = view(&sess.notebook);
                        if mem != model {
                            return Err(format!("the open notebook holds {mem:?}, recorded {model:?}"));
                        }
                        let cat: String = sess.notebook.blocks.iter().map(|b| b.content.as_str()).collect();
                        if cat != now {
                            return Err(format!("the open notebook would save {cat:?} over {now:?}"));
                        }
                    }
                    Ok(())
                });
                c.transitions += len as u64;
                c.state((si, s));
                c.traces += 1;
                let nt = s.iter().any(|&o| o < k - 1 && TEXTS[o / 2].contains("``"));
                c.eval((si, s), nt);
                if nt && len == 2 {
                    c.sample(json!({"start": st, "ops": s.iter().map(|&o| if o == k - 1 { "reopen".to_string() } else { format!("{} {:?}", if o % 2 == 0 { "code" } else { "output" }, TEXTS[o / 2]) }).collect::<Vec<_>>()}));
                }
                if let Err(e) = r.unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                    c.violation(format!("session:{id}"), format!("start {st:?}, ops {s:?}: {e}"), json!({"start": si, "ops": s}));
                }
            });
        }
    }
}

fn run(c: &mut Ctx) {
    docs(c);
    sessions(c);
}
