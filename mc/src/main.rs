mod bb;
mod common;
mod props;
mod vt;
use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--worker") {
        let spec = props::find(&args[2]).expect("property");
        let only = args.get(6).map(|s| serde_json::from_str(s).unwrap());
        common::worker_main(&spec, args[3].parse().unwrap(), args[4].parse().unwrap(), Path::new(&args[5]), only);
        return;
    }
    let Some(spec) = args.get(1).and_then(|id| props::find(id)) else {
        eprintln!("usage: mc <property> [--replay FILE]");
        std::process::exit(2);
    };
    let replay = if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        let t = std::fs::read_to_string(&args[3]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&t).expect("replay json");
        Some(v["replay"].clone())
    } else {
        None
    };
    std::process::exit(common::run_check(&spec, replay));
}
