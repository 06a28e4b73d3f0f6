//! Scenarios: what each property's simulated runs consist of.
use crate::eng::*;
use crate::runner::*;
use crate::toy::Toy;
use crate::util::*;
use serde_json::{json, Value};

pub mod bytes;
pub mod calc;
pub mod calls;
pub mod coins;
pub mod forge;
pub mod honest;
pub mod lists;
pub mod world;

pub const PROPS: [&str; 15] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];

/// How often something is done over and over: rarely, and then a few more times than a power of two.
pub fn row(p: &mut Prng, odds: u64) -> u64 {
    if !p.chance(1, odds) { return 0; }
    p.below(8) + match p.below(120) { 0 => 4098, 1..=6 => 1026, _ => *p.pick(&[18, 34, 66, 130, 258]) }
}
/// No row is longer than this (also when a minimised or hand-written plan says so).
pub const ROW: u64 = 5000;

/// One plan per (property, tier, seed, index): a pure function of the generator state.
pub fn gen(prop: &str, tier: &str, i: u64, p: &mut Prng) -> Value {
    let mut sched = Sched::gen(p);
    let big = if tier == "quick" { 12 } else { 60 };
    let (scen, eng, body) = match prop {
        "C01" => if i % 3 == 2 { world::gen(p, world::Mix::Network) } else { honest::gen(p, big) },
        "C02" => if i % 4 == 3 { world::gen(p, world::Mix::Hostile) } else { forge::gen(p, false, false, big) },
        "C03" => if i % 4 == 3 { world::gen(p, world::Mix::Hostile) } else { forge::gen(p, false, true, big) },
        "C04" => calls::gen(p, calls::Mix::Schedules, big),
        "C05" => calls::gen(p, calls::Mix::Histories, big),
        "C13" => calls::gen(p, calls::Mix::Failures, 0),
        "C06" => coins::gen06(p),
        "C07" => lists::gen(p, 3 * big),
        "C08" => coins::gen08(p),
        "C09" => bytes::gen09(p, big),
        "C10" => bytes::gen10(p),
        "C14" => coins::gen14(p),
        "C12" => if i % 8 == 7 { world::gen(p, world::Mix::Hostile) } else { forge::gen(p, true, true, 0) },
        "C15" => calc::gen(p),
        "C11" => world::gen(p, world::Mix::Crashes),
        _ => unreachable!(),
    };
    if eng == "bls" { sched.gap = sched.gap.max(1000); }
    json!({"prop": prop, "scen": scen, "eng": eng, "sched": js(&sched), "body": body})
}
pub fn exec(plan: &Value) -> Res {
    let bls = plan["eng"] == "bls";
    macro_rules! go { ($m:ident) => { if bls { $m::exec::<Bls>(plan) } else { $m::exec::<Toy>(plan) } } }
    match plan["scen"].as_str().unwrap_or("") {
        "bytes" => go!(bytes),
        "calc" => go!(calc),
        "calls" => go!(calls),
        "coins" => go!(coins),
        "lists" => go!(lists),
        "forge" => go!(forge),
        "honest" => go!(honest),
        "world" => go!(world),
        s => panic!("unknown scenario {s}"),
    }
}
/// (runs, wall-clock budget in seconds)
pub fn effort(prop: &str, tier: &str) -> (u64, f64) {
    let q = match prop { "C06" => 1400, "C14" => 2600, "C08" => 4000, "C09" => 7000, "C10" => 14000, "C12" => 5000, "C15" => 3600, _ => 3000 };
    if tier == "quick" { (q, 240.0) } else { (q * 66, 3000.0) }
}
pub fn meta(prop: &str) -> Meta {
    let rule = match prop {
        "C01" => "one run = 1-4 honest sessions (kind, m x n, coefficients, key, coins, assembly of commitments, verifiers, transport) under one seeded schedule, every third run a whole deployment of parties over a faulty network; non-trivial = at least one proof was made and verified",
        "C02" | "C03" => "one run = one honest session and a sequence of adversarial deliveries (32 operations, twins that agree in all but one component, among them solving the pairing relation so that it fails in chosen components only, or so that its errors cancel), every fourth run a deployment with hostile parties; every verdict is compared with the reference relation and, under binding keys, with the values the trapdoor extracts; non-trivial = at least one delivery differed from honest traffic",
        "C04" => "one run = a history of calls and matrix products by concurrent callers under one schedule and pool size, compared with the same calls in a fresh sequential process; non-trivial = at least one call was compared",
        "C05" => "one run = a history of related calls (arguments changed in place, repeated, failing, concurrent) each compared with the same call alone in a fresh process; non-trivial = at least one call was compared",
        "C06" => "one run = a statement set, two witnesses of it and a hiding key; the run solves for the coins under which the second witness produces the first one's message and replays it; non-trivial = the witnesses differ",
        "C07" => "one run = two commitment lists assembled by random programs of batches, singles, appends, failures and reloads, opened with the trapdoor and used in proofs; non-trivial = at least one list was opened",
        "C08" => "one run = a history of generations with failing attempts, under scripted coins; every word of the coins is varied; non-trivial = at least one generation was analysed",
        "C09" => "one run = 1-3 concurrent streams of objects of 19 types over chunked, interrupted and failing devices, cut at every point; non-trivial = at least one object was written and read back",
        "C10" => "one run = a handful of corrupted, forged, spliced or truncated byte strings, each decoded with bounded memory; non-trivial = at least one string was decoded",
        "C11" => "one run = a deployment whose provers crash at arbitrary points and restart from their simulated disks; non-trivial = at least one commitment list was stored and used",
        "C12" => "one run = one statement and a sequence of misshapen deliveries, every eighth run a deployment with hostile parties; non-trivial = at least one misshapen delivery was judged",
        "C13" => "one run = a history of calls in which entropy sources, streams, argument checks and workers fail at chosen points, each repeated afterwards and compared with a process where nothing failed; non-trivial = at least one call was compared",
        "C15" => "one run = 1-4 concurrent clients executing programs of 4-400 group, pairing, map, matrix and conversion operations on registers, crashing and resuming from saved registers; every register is compared with a model of discrete logarithms after every operation; non-trivial = at least one program was executed",
        _ => "one run = a history of commitments and proofs under scripted coins; every word of the coins is varied; non-trivial = at least one step was analysed",
    };
    let coins = matches!(prop, "C06" | "C08" | "C14");
    let mut assumptions = vec![
        "the engines are honest bilinear groups: the toy engine (120-bit, two-word scalars with open discrete logarithms) and arkworks' BLS12-381 stand for every instantiation of the generic code".to_string(),
        "threads interleave at the basic-block edges of groth-sahai, rayon, crossbeam and the engines, at synchronisation operations, draws of randomness and stream calls".to_string(),
        "sequentially consistent memory".to_string(),
    ];
    if matches!(prop, "C02" | "C03" | "C12") { assumptions.push("forgeries are those an algebraic adversary reaches with the listed operations; the reference relation is the textbook one".into()); }
    if coins { assumptions.push("the published elements are read as discrete logarithms of the toy engine; uniform coins are replaced by every finite difference".into()); }
    let mut stub = vec!["toy bilinear group (most runs)", "operating system primitives: threads, futexes, clocks, entropy (simulated)", "coins of the callers"];
    if matches!(prop, "C01" | "C02" | "C03" | "C11" | "C12") { stub.extend(["network", "disks"]); }
    if matches!(prop, "C01" | "C05" | "C07" | "C08" | "C09" | "C10" | "C13" | "C15") { stub.push("byte streams"); }
    let mut real = vec!["groth-sahai (all of src/, unmodified)", "rayon and rayon-core", "ark-serialize", "ark-ff"];
    if prop != "C06" { real.push("ark-ec and ark-bls12-381 (a share of the runs)"); }
    Meta { level: "exploration", rule: rule.into(), assumptions, real, stub }
}
