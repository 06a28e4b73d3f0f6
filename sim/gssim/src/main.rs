//! gssim: deterministic simulation of provers, verifiers, their threads, their coins, their
//! transport and their disks around the unmodified groth-sahai library.
mod eng;
mod runner;
mod scen;
mod toy;
mod util;
use runner::*;
use serde_json::Value;
use util::*;

fn gen(prop: &str, tier: &str, seed: u64, i: u64) -> Value {
    let mut p = Prng::new(mix64(seed) ^ mix64(i.wrapping_mul(0x9E37) ^ 0x77) ^ fnv(FNV0, prop.as_bytes()));
    scen::gen(prop, tier, i, &mut p)
}
fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    eng::init();
    ensure_shared();
    let root = arg(&a, "--root").unwrap_or_else(|| "/verif".into());
    let known = load_known(&format!("{root}/KNOWN_FINDINGS.txt"));
    let num = |k: &str| arg(&a, k).and_then(|s| s.parse::<u64>().ok());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            toy::selftest();
            let prop = a[2].clone();
            let tier = arg(&a, "--tier").unwrap_or_else(|| "quick".into());
            let (runs, budget) = scen::effort(&prop, &tier);
            let workers = num("--workers").unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).clamp(1, 64) as usize;
            let j = Job { prop: &prop, tier: &tier, seed: num("--seed").unwrap_or(1), runs: num("--runs").unwrap_or(runs), budget_s: num("--budget").map(|b| b as f64).unwrap_or(budget), workers, gen, exec: scen::exec, known: &known };
            check(&j, &scen::meta(&prop), &root)
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&read_file(&a[2])).expect("replay file");
            let prop = v["property"].as_str().unwrap_or("?").to_string();
            let class = v["class"].as_str().unwrap_or("").to_string();
            let o = run_once(scen::exec, &v["plan"], true);
            for t in &o.trace { println!("  {t}"); }
            let same = o.log_hash == v["log_hash"].as_u64().unwrap_or(0) && o.sched_hash == v["sched_hash"].as_u64().unwrap_or(0);
            println!("outcome: class={:?} {} (event log and schedule {} the recorded ones)", o.class, o.msg, if same { "equal" } else { "DIFFER from" });
            for (c, m) in &o.known { println!("also: {c}: {m}"); }
            if o.class == class || o.known.iter().any(|(c, _)| *c == class) || o.bad() { println!("VIOLATION property={prop} replay={}", a[2]); 1 } else { 0 }
        }
        Some("run") => {
            let plan = gen(&a[2], &arg(&a, "--tier").unwrap_or_else(|| "quick".into()), num("--seed").unwrap_or(1), a[3].parse().unwrap());
            println!("{plan}");
            let o = run_once(scen::exec, &plan, true);
            for t in &o.trace { println!("  {t}"); }
            println!("class={:?} {}\ncounters={:?}\nknown={:?}\npoints={} decisions={} switches={} threads={} sim_ns={} log={:x} sched={:x} nontrivial={}", o.class, o.msg, o.counters, o.known, o.points, o.decisions, o.switches, o.threads, o.sim_ns, o.log_hash, o.sched_hash, o.nontrivial);
            o.bad() as i32
        }
        Some("plan") => { println!("{}", gen(&a[2], "quick", num("--seed").unwrap_or(1), a[3].parse().unwrap())); 0 }
        // determinism: the same seeds under different worker counts must give the same event logs
        Some("selftest") => {
            toy::selftest();
            let runs = num("--runs").unwrap_or(200);
            let mut bad = 0;
            let only = arg(&a, "--prop");
            for prop in scen::PROPS {
                if only.as_ref().map(|o| !prop.eq(o.as_str())).unwrap_or(false) { continue; }
                let mut d = vec![];
                let mut hs: Vec<std::collections::BTreeMap<u64, u64>> = vec![];
                for w in [1usize, 3, 8] {
                    let j = Job { prop, tier: "quick", seed: num("--seed").unwrap_or(7), runs, budget_s: 1e9, workers: w, gen, exec: scen::exec, known: &known };
                    let r = batch(&j);
                    d.push(r.digest);
                    hs.push(r.hashes);
                }
                let ok = d.iter().all(|x| *x == d[0]);
                println!("{prop}: {} {:016x}", if ok { "deterministic" } else { "NOT DETERMINISTIC" }, d[0]);
                if !ok { bad += 1; for h in &hs[1..] { for (i, v) in h { if hs[0].get(i) != Some(v) { println!("  run {i} differs"); } } } }
            }
            (bad > 0) as i32
        }
        _ => { eprintln!("usage: gssim check PROP | replay FILE | run PROP I | selftest"); 2 }
    };
    std::process::exit(code);
}
