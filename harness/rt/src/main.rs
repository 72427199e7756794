mod util;
mod filters;
use util::Rep;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, seed, tier) = (a[1].as_str(), a[2].parse::<u64>().unwrap_or(1), a[3].as_str());
    std::panic::set_hook(Box::new(|_| {}));
    let deep = tier == "thorough";
    let mut rep = Rep::default();
    match id {
        "C01" => filters::c01(&mut rep, seed, deep),
        "C05" => filters::c05(&mut rep, seed, deep),
        "C06" => filters::c06(&mut rep, seed, deep),
        "C07" => filters::c07(&mut rep, seed, deep),
        "C08" => filters::c08(&mut rep, seed, deep),
        "C09" => filters::c09(&mut rep, seed, deep),
        "C10" => filters::c10(&mut rep, seed, deep),
        "C11" => filters::c11(&mut rep, seed, deep),
        _ => { eprintln!("no such property"); std::process::exit(2); }
    }
    println!("{}", serde_json::json!({"failures": rep.fails, "failing": rep.nfail, "coverage": {
        "evaluations": rep.count, "distinct_nontrivial": rep.seen.len(), "samples": rep.samples, "enumerated_completely": rep.exhaustive,
        "rule": "distinct inputs (text, pieces, parameters, destination), each compared with an independent reference"}}));
}
