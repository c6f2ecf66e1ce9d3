mod args;
mod cmd;
mod damage;
mod exec;
mod ffi;
mod gen;
mod mb;
mod model;
mod props;
mod rng;
mod runner;
mod sanitize;
mod scale;
mod storage;
mod trace;
mod world;

use runner::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::time::Instant;

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: monitor <property> ...");
    let (mut tier, mut seed, mut only, mut cases, mut secs, mut threads, mut verbose) = ("quick".to_string(), 1u64, None, None, None, 8usize, false);
    let mut bins: Vec<(String, PathBuf)> = vec![];
    let mut tools = BTreeMap::new();
    let (mut evid, mut replays, mut known) = (None::<PathBuf>, PathBuf::from("/verif/replays"), None::<PathBuf>);
    while let Some(o) = a.next() {
        let mut v = || a.next().expect("value");
        match o.as_str() {
            "--tier" => tier = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--case" => only = Some(v().parse::<u64>().unwrap()),
            "--cases" => cases = Some(v().parse::<u64>().unwrap()),
            "--secs" => secs = Some(v().parse::<f64>().unwrap()),
            "--threads" => threads = v().parse().unwrap(),
            "--bin" => { let s = v(); let (n, p) = s.split_once('=').unwrap(); bins.push((n.into(), p.into())); }
            "--tool" => { let s = v(); let (n, p) = s.split_once('=').unwrap(); tools.insert(n.to_string(), PathBuf::from(p)); }
            "--evidence" => evid = Some(v().into()),
            "--replays" => replays = v().into(),
            "--known" => known = Some(v().into()),
            "--verbose" => verbose = true,
            x => panic!("unknown option {x}"),
        }
    }
    let shm = PathBuf::from("/dev/shm");
    let base = if shm.is_dir() { shm } else { std::env::temp_dir() };
    let root = base.join(format!("mapmon.{}.{}", prop, std::process::id()));
    std::fs::create_dir_all(&root).expect("scratch directory");
    // "known: property=<id> sig=<signature> ..." lines suppress exactly that signature.
    let known = known.and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix("known: property=")).filter_map(|l| { let (id, r) = l.split_once(' ')?; Some((id.to_string(), r.strip_prefix("sig=")?.split(' ').next()?.to_string())) }).collect();
    let ctx = Ctx { prop: prop.clone(), seed, thorough: tier == "thorough", bins, tools, root: root.clone(), replays, known, verbose };
    let t0 = Instant::now();
    let Some((mut plan, f, level, assume)) = checks(&ctx) else { eprintln!("no such property: {prop}"); std::process::exit(2) };
    if let Some(c) = cases { plan.cases = c; }
    if let Some(s) = secs { plan.secs = s; }
    plan.threads = plan.threads.min(threads);
    let s = run_cases(&ctx, &plan, only, &*f);
    let wall = t0.elapsed().as_secs_f64();
    let _ = std::fs::remove_dir_all(&root);
    if let Some(e) = evid { if let Some(d) = e.parent() { let _ = std::fs::create_dir_all(d); } if let Err(x) = std::fs::write(&e, evidence(&ctx, &plan, level, &s, wall, assume)) { eprintln!("{x}"); std::process::exit(2); } }
    println!("{prop}: {} cases, {} evaluations, {} distinct non-trivial, {} inconclusive, {:.1} s", s.cases, s.evals, s.distinct, s.inconclusive.len(), wall);
    for (k, v) in &s.counters { println!("  {k}: {v}"); }
    for m in s.inconclusive.iter().take(5) { println!("  inconclusive: {m}"); }
    for k in &s.known { println!("KNOWN-FINDING: property={prop} {k}"); }
    for (i, b, rd) in &s.bad {
        println!("case {i} [{}]: {}", b.sig, b.msg);
        println!("VIOLATION property={prop} replay={}", rd.join("report.txt").display());
    }
    if !s.bad.is_empty() { std::process::exit(1); }
    for m in s.harness.iter().take(10) { println!("harness error: {m}"); }
    if !s.harness.is_empty() { std::process::exit(2); }
    if only.is_none() && s.distinct < plan.min_nontrivial { println!("too little was observed ({} < {})", s.distinct, plan.min_nontrivial); std::process::exit(2); }
}

type Check = Box<dyn Fn(&mut Case) -> Res + Sync>;

fn checks(ctx: &Ctx) -> Option<(Plan, Check, &'static str, &'static [&'static str])> {
    let t = ctx.thorough;
    let plan = |q: u64, th: u64, rule: &'static str| Plan { cases: if t { th } else { q * 4 }, secs: if t { 600.0 } else { 45.0 }, threads: 8, rule, min_nontrivial: 3 };
    const A: &[&str] = &["the monitor's own mapblock codec and reference model read the format and the manual correctly", "system sqlite3, zlib and zstd libraries are correct"];
    const R1: &str = "each case generates a map (and source map) and one command, runs the real executable on it and compares every stored row with a node-level reference model; non-trivial: the model says the command changes something; distinct: by hash of map contents and command";
    let ex = "exploration";
    Some(match ctx.prop.as_str() {
        "C01" => (plan(3000, 100_000, R1), Box::new(props::one_command) as Check, ex, A),
        "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" =>
            (plan(6000, 300_000, R1), Box::new(props::one_command), ex, A),
        "C18" => (plan(6000, 300_000, "as for single commands, with blocks damaged in 34 ways; non-trivial: at least one damaged block is stored"), Box::new(props::one_command), ex, A),
        "C02" => (plan(800, 30_000, "each case runs a history of commands on one map, decodes every stored block strictly and compares with the model after each step; non-trivial: at least two steps change something"), Box::new(props::history), ex, A),
        "C16" => (plan(3000, 60_000, "each case vacuums a generated map file (varied page size, auto-vacuum mode, free pages, damaged rows); non-trivial: more than one row or some free page"), Box::new(props::vacuum), ex, A),
        "C17" => (plan(1500, 60_000, "each case runs a command on an area, with the corners permuted, on the inverted area, on both in sequence and on the whole map; non-trivial: the commands change something"), Box::new(props::partition), ex, A),
        "C19" => (plan(12000, 400_000, "each case makes one invocation: valid (often exactly at a documented limit) or spoilt in one of 20 ways; non-trivial: every invocation; distinct: by hash of the invocation"), Box::new(args::arguments), ex, A),
        "C20" => (plan(3000, 60_000, "each case runs one command with one scripted answer (or -y) and watches all file operations; non-trivial: carrying the command out would change the map; distinct: by map, command, answer and its timing"), Box::new(storage::confirmation), ex, A),
        "C21" => (Plan { secs: if t { 600.0 } else { 70.0 }, ..plan(400, 20_000, "each case records all file operations of one command, opens crash images (kill and power loss) at many points of the record, then reruns the command with injected faults, kills, locks and signals; evaluations are cases, distinct counts crash images that differ in content") }, Box::new(storage::atomic), "fault_enumeration", A),
        "C22" => (plan(600, 20_000, "each case runs overlay undisturbed and disturbed while all file operations are recorded; non-trivial: overlay read the source; distinct: by maps and command"), Box::new(storage::source_untouched), ex, A),
        "C24" => (Plan { secs: if t { 600.0 } else { 75.0 }, ..plan(100_000, 1_000_000, "each case runs one command on a well-formed, damaged or mutated map with a build of the program under AddressSanitizer, MemorySanitizer or ThreadSanitizer; non-trivial: the run finished its work; distinct: by map, command and sanitizer") }, Box::new(sanitize::sanitized), ex, &["the sanitizer runtimes report what they are documented to report", "SQLite 3.34.1 from the cargo cache, instrumented, stands in for the system's library"]),
        "C25" => (Plan { secs: if t { 600.0 } else { 60.0 }, ..plan(1500, 40_000, "each case runs one command under random delays of database, output, file operations, input and output consumer; non-trivial: switches between the threads were seen; distinct: by map, command and sequence of thread switches") }, Box::new(storage::timing), ex, A),
        "C23" => (plan(5000, 200_000, "each case compares the numbers shown by a run with those of the reference model; non-trivial: some count, skip or selection is non-zero"), Box::new(props::counts), ex, A),
        "C26" => (plan(2000, 80_000, "each case stores one logical map in two ways, runs the same command on both and repeats one run; non-trivial: the command changes the map"), Box::new(props::representation), ex, A),
        "C27" => (plan(2000, 80_000, "each case runs one command while another program, or a second run of the program, changes the same map (or the source map), and compares the map with the results of all serial orders; non-trivial: both changes change something; distinct: by map, command, kind of meeting and who succeeded"), Box::new(storage::isolation), ex, A),
        "C28" => (Plan { secs: if t { 600.0 } else { 60.0 }, ..plan(400, 4000, "each case runs one command on two maps of the same kind, one 2.5 to 8 times as large, and compares what the runs cost; non-trivial: every case; distinct: by command, kind of map and shape") }, Box::new(scale::scaling), ex, A),
        _ => return None,
    })
}
