//! Cases, verdicts, evidence and replay directories.
use crate::rng::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub bins: Vec<(String, PathBuf)>,
    pub tools: BTreeMap<String, PathBuf>,
    pub root: PathBuf,
    pub replays: PathBuf,
    pub known: Vec<(String, String)>,
    pub verbose: bool,
}

#[derive(Default)]
pub struct Report {
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub hash: u64,
    pub sample: Option<String>,
    pub evals: u64,
    pub distinct: Vec<u64>,
}
impl Report {
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_default() += n; }
}

/// A refutation: `sig` identifies what fails (for the known-findings file).
#[derive(Debug)]
pub struct Bad { pub sig: String, pub msg: String }
pub enum Fail { Bad(Bad), Harness(String), Inconclusive(String) }
pub type Res = Result<(), Fail>;
pub fn bad<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> { Err(Fail::Bad(Bad { sig: sig.into(), msg: msg.into() })) }
impl From<String> for Fail { fn from(s: String) -> Fail { Fail::Harness(s) } }

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub idx: u64,
    pub rng: Rng,
    pub dir: PathBuf,
    pub rep: Report,
    pub log: String,
}
impl Case<'_> {
    /// Which build of the program this case runs.
    pub fn bin(&self) -> &(String, PathBuf) { &self.ctx.bins[(self.idx as usize / 7 + self.idx as usize) % self.ctx.bins.len()] }
    pub fn note(&mut self, s: impl AsRef<str>) { if self.log.len() < 200_000 { self.log.push_str(s.as_ref()); self.log.push('\n'); } }
    pub fn sub(&self, n: &str) -> PathBuf { self.dir.join(n) }
}

pub fn strhash(s: &str) -> u64 { hash_bytes(s.as_bytes()) }

pub struct Plan { pub cases: u64, pub secs: f64, pub threads: usize, pub rule: &'static str, pub min_nontrivial: u64 }

pub struct Summary { pub cases: u64, pub evals: u64, pub distinct: u64, pub counters: BTreeMap<String, u64>, pub samples: Vec<String>,
    pub bad: Vec<(u64, Bad, PathBuf)>, pub known: BTreeSet<String>, pub harness: Vec<String>, pub inconclusive: Vec<String>, pub stopped_early: bool }

fn copy_tree(from: &Path, to: &Path, budget: &mut u64) {
    let _ = fs::create_dir_all(to);
    if let Ok(d) = fs::read_dir(from) {
        for e in d.flatten() {
            let p = e.path();
            let t = to.join(e.file_name());
            if p.is_dir() { copy_tree(&p, &t, budget); }
            else if let Ok(m) = p.metadata() { if m.len() <= *budget { *budget -= m.len(); let _ = fs::copy(&p, &t); } }
        }
    }
}

pub fn run_cases(ctx: &Ctx, plan: &Plan, only: Option<u64>, f: &(dyn Fn(&mut Case) -> Res + Sync)) -> Summary {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    let sum = Mutex::new(Summary { cases: 0, evals: 0, distinct: 0, counters: BTreeMap::new(), samples: vec![], bad: vec![],
        known: BTreeSet::new(), harness: vec![], inconclusive: vec![], stopped_early: false });
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        for w in 0..plan.threads {
            let (next, stop, sum, seen) = (&next, &stop, &sum, &seen);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
                loop {
                    let i = match only { Some(n) => if w == 0 && next.fetch_add(1, Ordering::SeqCst) == 0 { n } else { break }, None => next.fetch_add(1, Ordering::SeqCst) };
                    if only.is_none() && i >= plan.cases { break; }
                    if stop.load(Ordering::SeqCst) { break; }
                    if only.is_none() && t0.elapsed() > Duration::from_secs_f64(plan.secs) { sum.lock().unwrap().stopped_early = true; break; }
                    let dir = ctx.root.join(format!("w{w}"));
                    let _ = fs::remove_dir_all(&dir);
                    if let Err(e) = fs::create_dir_all(&dir) { sum.lock().unwrap().harness.push(e.to_string()); break; }
                    let mut c = Case { ctx, idx: i, rng: Rng::new(mix(ctx.seed).wrapping_add(strhash(&ctx.prop)) ^ mix(i + 1)), dir: dir.clone(), rep: Report::default(), log: String::new() };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)))
                        .unwrap_or_else(|e| Err(Fail::Harness(format!("monitor panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))));
                    if ctx.verbose { eprintln!("case {i}: {}", c.log); }
                    let mut s = sum.lock().unwrap();
                    s.cases += 1;
                    s.evals += c.rep.evals.max(1);
                    for (k, n) in &c.rep.counters { *s.counters.entry(k.clone()).or_default() += n; }
                    {
                        let mut sn = seen.lock().unwrap();
                        if c.rep.nontrivial && sn.insert(c.rep.hash) { s.distinct += 1; }
                        for h in &c.rep.distinct { if sn.insert(*h) { s.distinct += 1; } }
                    }
                    if let Some(x) = c.rep.sample { if s.samples.len() < 6 && (c.rep.nontrivial || !c.rep.distinct.is_empty()) { s.samples.push(x); } }
                    match r {
                        Ok(()) => {}
                        Err(Fail::Inconclusive(m)) => s.inconclusive.push(format!("case {i}: {m}")),
                        Err(Fail::Harness(m)) => { s.harness.push(format!("case {i}: {m}")); if s.harness.len() > 20 { stop.store(true, Ordering::SeqCst); } }
                        Err(Fail::Bad(b)) => {
                            if let Some(k) = ctx.known.iter().find(|k| k.0 == ctx.prop && k.1 == b.sig) { s.known.insert(k.1.clone()); continue; }
                            let rd = ctx.replays.join(format!("{}-seed{}-case{}", ctx.prop, ctx.seed, i));
                            if s.bad.len() < 3 {
                                let _ = fs::remove_dir_all(&rd);
                                let mut budget = 40 << 20;
                                copy_tree(&dir, &rd, &mut budget);
                                let _ = fs::write(rd.join("report.txt"), format!("property {}\nseed {} case {} tier {}\nre-run: /verif/check {} --tier {} --seed {} --case {}\n\nwhat failed [{}]:\n{}\n\n{}\n",
                                    ctx.prop, ctx.seed, i, if ctx.thorough { "thorough" } else { "quick" }, ctx.prop, if ctx.thorough { "thorough" } else { "quick" }, ctx.seed, i, b.sig, b.msg, c.log));
                            }
                            s.bad.push((i, b, rd));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                }
            }).unwrap();
        }
    });
    let mut s = sum.into_inner().unwrap();
    s.bad.sort_by_key(|b| b.0);
    s
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

pub fn evidence(ctx: &Ctx, plan: &Plan, level: &str, s: &Summary, wall: f64, assumptions: &[&str]) -> String {
    let cov: Vec<String> = s.counters.iter().map(|(k, v)| format!("    {}: {}", jstr(k), v)).collect();
    format!("{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{level}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"cases\": {},\n  \"stopped_by_time_limit\": {},\n  \"inconclusive\": {},\n  \"observed\": {{\n{}\n  }}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(&ctx.prop), if ctx.thorough { "thorough" } else { "quick" }, ctx.seed, s.evals, s.distinct, jstr(plan.rule),
        s.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "), s.cases, s.stopped_early, s.inconclusive.len(), cov.join(",\n"),
        assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "), wall, s.bad.len())
}
