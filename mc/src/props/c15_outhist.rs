//! C15: captured-output history. Every sequence of captures/clears up to a depth, for every small
//! configuration, on the real ring buffer, against a list model.
use crate::common::*;
use dsh_types::output_history::{OutputEntry, OutputHistory, parse_output_var};
use serde_json::json;

pub fn spec() -> Spec {
    Spec {
        id: "C15",
        level: "model_checking",
        rule: "all operation sequences (capture with every stdout/stderr size class incl. multi-byte text, clear) up to the depth, for every small (entries, per-entry, total) configuration, compared after every step with a list model; plus every reference name over an alphabet. Non-trivial: the sequence contains an eviction or a truncation.",
        assumptions: &["limits are exercised scaled down (1-3 entries, 3-12 bytes per entry) through the constructor the shell's own defaults go through"],
        shards: 8,
        hang_s: 60,
        run,
    }
}

const MARK: &str = "\n... (truncated)";

// (stdout, stderr)
const ENTRIES: &[(&str, &str)] = &[
    ("", ""),
    ("a", ""),
    ("", "e"),
    ("abcd", "xy"),
    ("abcdefghij", ""),
    ("", "uvwxyzuvw"),
    ("abcdefgh", "stuvwxyz"),
    ("あいう", "é"),
    ("aあいう", "éñüx"),
    ("\n\n", "z"),
];

#[derive(Clone)]
struct M {
    cmd: String,
    out: String,
    err: String,
    code: i32,
}

fn check_entry(real: &OutputEntry, orig: &M, per: usize) -> Result<(), String> {
    if real.command != orig.cmd || real.exit_code != orig.code {
        return Err(format!("stored command/exit code changed: {:?} {}", real.command, real.exit_code));
    }
    let total = orig.out.len() + orig.err.len();
    if total <= per {
        if real.stdout != orig.out || real.stderr != orig.err {
            return Err(format!("output within the per-entry limit was altered: {:?} {:?}", real.stdout, real.stderr));
        }
        return Ok(());
    }
    let mut kept = 0;
    let mut any = false;
    for (r, o, n) in [(&real.stdout, &orig.out, "stdout"), (&real.stderr, &orig.err, "stderr")] {
        if r == o {
            kept += r.len();
        } else if let Some(p) = r.strip_suffix(MARK) {
            if !o.starts_with(p) {
                return Err(format!("truncated {n} {p:?} is not a prefix of {o:?}"));
            }
            if p.len() == o.len() {
                return Err(format!("{n} carries the truncation marker but nothing was cut"));
            }
            kept += p.len();
            any = true;
        } else {
            return Err(format!("{n} {r:?} is neither the output {o:?} nor a marked prefix of it"));
        }
    }
    if !any {
        return Err("over-long entry was not truncated".into());
    }
    if kept > per {
        return Err(format!("kept {kept} bytes of output, limit {per}"));
    }
    if kept + 6 < per {
        return Err(format!("kept only {kept} bytes of output, limit {per}"));
    }
    Ok(())
}

fn run_seq(c: &mut Ctx, cfg: (usize, usize, usize), seq: &[usize]) -> Result<bool, String> {
    let mut hist = OutputHistory::with_capacity(cfg.0, cfg.1, cfg.2);
    let mut model: Vec<(M, usize)> = vec![]; // newest first, with stored size
    let mut interesting = false;
    for (i, &op) in seq.iter().enumerate() {
        if op == ENTRIES.len() {
            hist.clear();
            model.clear();
        } else {
            let (o, e) = ENTRIES[op];
            let m = M { cmd: format!("c{i}"), out: o.into(), err: e.into(), code: i as i32 };
            hist.push(OutputEntry::new(m.cmd.clone(), m.out.clone(), m.err.clone(), m.code));
            let Some(front) = hist.get(1) else { return Err("a capture left no entry 1".into()) };
            check_entry(front, &m, cfg.1)?;
            interesting |= o.len() + e.len() > cfg.1;
            let sz = front.command.len() + front.stdout.len() + front.stderr.len();
            let before = model.len();
            while model.len() >= cfg.0 {
                model.pop();
            }
            while !model.is_empty() && model.iter().map(|x| x.1).sum::<usize>() + sz > cfg.2 {
                model.pop();
            }
            interesting |= model.len() < before;
            model.insert(0, (m, sz));
        }
        c.transitions += 1;
        c.state((cfg, model.iter().map(|x| (x.1, x.0.out.clone(), x.0.err.clone())).collect::<Vec<_>>()));
        if hist.len() != model.len() || hist.is_empty() != model.is_empty() {
            return Err(format!("{} entries held, {} expected", hist.len(), model.len()));
        }
        for n in 1..=model.len() {
            let r = hist.get(n).ok_or(format!("entry {n} missing"))?;
            check_entry(r, &model[n - 1].0, cfg.1).map_err(|e| format!("entry {n}: {e}"))?;
            if hist.get_stdout(n) != Some(r.stdout.as_str()) || hist.get_stderr(n) != Some(r.stderr.as_str()) {
                return Err(format!("stream accessors disagree with entry {n}"));
            }
        }
        if hist.get(0).is_some() || hist.get(model.len() + 1).is_some() || hist.get_stdout(model.len() + 1).is_some() {
            return Err("an out-of-range index returned an entry".into());
        }
        let order: Vec<&str> = hist.iter().map(|e| e.command.as_str()).collect();
        let want: Vec<&str> = model.iter().map(|e| e.0.cmd.as_str()).collect();
        let all: Vec<String> = hist.get_all_entries().into_iter().map(|e| e.command).collect();
        if order != want || all != want {
            return Err(format!("listing order {order:?}/{all:?}, expected {want:?}"));
        }
        let sum: usize = hist.iter().map(|e| e.size()).sum();
        if hist.total_size() != sum {
            return Err(format!("tracked total {} differs from the stored {}", hist.total_size(), sum));
        }
        if hist.len() > 1 && sum > cfg.2 {
            return Err(format!("{} entries hold {sum} bytes, limit {}", hist.len(), cfg.2));
        }
        if hist.last_stdout() != hist.get_stdout(1) || hist.last_stderr() != hist.get_stderr(1) {
            return Err("the most recent output is not entry 1".into());
        }
    }
    c.traces += 1;
    Ok(interesting)
}

fn run(c: &mut Ctx) {
    let depth = if c.thorough() { 5 } else { 4 };
    let mut cfgs = vec![];
    for e in [1, 2, 3] {
        for p in [3, 7, 12] {
            for t in [8, 30, 60] {
                cfgs.push((e, p, t));
            }
        }
    }
    let replay = c.only.clone();
    for len in 1..=depth {
        for cfg in &cfgs {
            sequences(ENTRIES.len() + 1, len, |s| {
                if let Some(r) = &replay {
                    if r["cfg"] != json!(cfg) || r["seq"] != json!(s) {
                        return;
                    }
                }
                if !c.mine() {
                    return;
                }
                let id = format!("{cfg:?} {s:?}");
                c.begin(&id);
                let r = match catch(|| run_seq(c, *cfg, s)) {
                    Ok(r) => r,
                    Err(p) => Err(format!("panic: {p}")),
                };
                match r {
                    Ok(i) => {
                        c.eval((cfg, s), i);
                        if i && len > 2 {
                            c.sample(json!({"config": cfg, "ops": s.iter().map(|&o| if o == ENTRIES.len() { "clear".to_string() } else { format!("{:?}", ENTRIES[o]) }).collect::<Vec<_>>()}));
                        }
                    }
                    Err(e) => {
                        c.eval((cfg, s), true);
                        c.violation(format!("seq:{id}"), format!("config {cfg:?} sequence {s:?}: {e}"), json!({"cfg": cfg, "seq": s}));
                    }
                }
            });
        }
    }
    refs(c);
}

/// Every reference name over a small alphabet, against the documented forms.
fn refs(c: &mut Ctx) {
    let toks = ["$", "OUT", "ERR", "[", "]", "1", "2", "0", "x", "-"];
    for len in 1..=5 {
        sequences(toks.len(), len, |s| {
            if !c.mine() {
                return;
            }
            let key: String = s.iter().map(|&i| toks[i]).collect();
            c.begin(&key);
            for prefix in ["OUT", "ERR"] {
                let body = key.strip_prefix('$').unwrap_or(&key);
                let want = if body == prefix {
                    Some(1)
                } else {
                    body.strip_prefix(prefix)
                        .and_then(|r| r.strip_prefix('['))
                        .and_then(|r| r.strip_suffix(']'))
                        .filter(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()))
                        .and_then(|d| d.parse::<usize>().ok())
                };
                let got = catch(|| parse_output_var(&key, prefix));
                c.eval(("ref", &key, prefix), want.is_some());
                if got != Ok(want) {
                    c.violation(format!("ref:{key}:{prefix}"), format!("reference {key:?} for {prefix}: got {got:?}, documented {want:?}"), json!({"ref": key}));
                }
            }
        });
    }
}
