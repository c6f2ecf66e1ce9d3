//! C24: the program built with AddressSanitizer, MemorySanitizer or ThreadSanitizer.
use crate::cmd::*;
use crate::damage;
use crate::exec::*;
use crate::ffi::{self, Db};
use crate::gen::*;
use crate::props::*;
use crate::runner::*;
use crate::world::*;
use std::fs;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::Duration;

const OPTS: [(&str, &str, &str); 3] = [
    ("asan", "ASAN_OPTIONS", "exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=1:max_allocation_size_mb=4000"),
    ("msan", "MSAN_OPTIONS", "exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=2000"),
    ("tsan", "TSAN_OPTIONS", "exitcode=86:halt_on_error=1:second_deadlock_stack=1:history_size=4"),
];

fn report_of(err: &str) -> Option<String> {
    let at = ["ERROR: AddressSanitizer", "WARNING: MemorySanitizer", "WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "runtime error:", "unsafe precondition(s) violated"].iter().filter_map(|m| err.find(m)).min()?;
    Some(err[at..].lines().filter(|l| !l.trim().is_empty()).take(14).collect::<Vec<_>>().join(" | "))
}

pub fn sanitized(c: &mut Case) -> Res {
    let which = [0usize, 1, 2, 0, 1][c.idx as usize % 5];
    let (tool, var, opt) = OPTS[which];
    let Some(bin) = c.ctx.bins.iter().find(|b| b.0 == tool).cloned() else { return Err(Fail::Harness(format!("no build {tool}"))) };
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    let name = ALL[(c.idx / 5) as usize % ALL.len()];
    let max = [[1, 1, 1], [2, 2, 2], [4, 3, 3]][r.idx(3)];
    let (lo, hi) = place(&mut r, max);
    let rich = Rich { heavy: if r.chance(0.2) { 0.5 } else { 0.05 }, meta: 0.7, objs: 0.6, timers: 0.6, wild_pos: r.chance(0.1), ..RICH };
    let mut main = world(&mut r, &p, lo, hi, &WorldCfg { max, density: 0.9, rich });
    let mut cmd = command(&mut r, name, &p, lo, hi);
    if matches!(name, "clone" | "overlay") && cmd.offset.is_some() { sane(&mut cmd); }
    let mut src = (name == "overlay").then(|| source_world(&mut r, &p, lo, hi, 0.85, rich));
    let kind = r.weighted(&[3, 4, 4]);
    if kind > 0 {
        for w in [Some(&mut main), src.as_mut()].into_iter().flatten() {
            if kind == 1 { for x in damage_world(&mut r, w, &p, 0.6, true, &rich) { c.rep.add(&format!("damage: {x}"), 1); } }
            else {
                let keys: Vec<i64> = w.cells.keys().copied().collect();
                for k in keys { if r.chance(0.7) { let b = block(&mut r, &p, pos_of(k), &rich); let raw = damage::mutate(&mut r, &p, &b); w.put_raw(pos_of(k), raw, "gray"); c.rep.add("blocks_mutated", 1); } }
            }
        }
    }
    c.rep.hash = world_hash(&main) ^ src.as_ref().map_or(0, world_hash) ^ strhash(&format!("{cmd:?}{tool}"));
    c.rep.add(&format!("runs_{tool}"), 1);
    c.rep.add(&format!("cmd_{name}"), 1);
    let cwd = c.sub("run");
    fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
    let m = spot(&mut r, &cwd, "world");
    write_db(&m.file.display().to_string(), &main, &DbOpts { wal: false, ..db_opts(&mut r) })?;
    let s = match &src { Some(w) => { let s = spot(&mut r, &cwd, "source"); write_db(&s.file.display().to_string(), w, &DbOpts { wal: false, ..db_opts(&mut r) })?; Some(s) } None => None };
    // Hostile rows: other storage classes, extreme positions.
    if r.chance(0.25) {
        let f = if r.chance(0.3) { s.as_ref().unwrap_or(&m) } else { &m };
        let db = Db::open(&f.file.display().to_string())?;
        for _ in 0..1 + r.idx(3) {
            let pos = match r.idx(4) { 0 => *r.pick(&[i64::MAX, i64::MIN, 0x8000_0000, -0x8000_0001, 1 << 35, -(1 << 35), 34351347711, -34351347712]), _ => key_of([lo[0] + r.i32r(0, 1), lo[1], lo[2]]) };
            let data = *r.pick(&["NULL", "''", "'text'", "42", "-1.5", "x''", "x'1d'", "x'1c'", "zeroblob(70000)", "randomblob(300)", "x'1d' || randomblob(90)", "x'19080000'"]);
            let _ = db.exec(&format!("INSERT OR REPLACE INTO blocks VALUES ({pos}, {data})"));
            c.rep.add("hostile_rows", 1);
        }
    }
    let ask = r.chance(if tool == "tsan" { 0.5 } else { 0.1 });
    let mut argv = cmd.argv(&m.arg, s.as_ref().map(|s| s.arg.as_str()), !ask, &mut r);
    let refused = r.chance(0.05);
    if refused { let i = r.idx(argv.len()); argv[i] = ["", "-1", "99999999999999999999", "\u{fffd}:x", "--p1", "--nodes", ":"][r.idx(7)].to_string(); c.rep.add("spoilt_invocations", 1); }
    c.note(format!("build: {tool}\ncommand: mapeditr {}", shell(&argv)));
    c.rng = r.fork();
    let run = if tool == "tsan" && r.chance(0.7) {
        // Vary the schedule: one processor, or a reader of the output that holds up the UI thread.
        let mut cm = Command::new(&bin.1);
        cm.args(&argv).current_dir(&cwd).env("RUST_BACKTRACE", "0").env(var, opt);
        let pe = cwd.join(".err");
        cm.stderr(fs::File::create(&pe).map_err(|e| e.to_string())?);
        let (rd, wr) = ffi::pipe().map_err(Fail::Harness)?;
        let full = r.chance(0.4);
        let junk = if full { let n = ffi::shrink_pipe(&wr) as usize; let k = n - [1, 17, 60][r.idx(3)]; let _ = (&wr).write_all(&vec![b'#'; k]); k } else { 0 };
        cm.stdout(wr).stdin(if ask { Stdio::piped() } else { Stdio::null() });
        if r.chance(0.4) { let n = r.idx(ffi::cpus()); ffi::pin(&mut cm, n); }
        let mut ch = cm.spawn().map_err(|e| e.to_string())?;
        drop(cm);
        ffi::limit_cpu(ch.id(), cpu_allow(c));
        let hold = r.u64() % if full { 150 } else { 10 };
        let wait = r.u64() % 120;
        let stdin = ch.stdin.take();
        let mut out = vec![];
        let end = std::thread::scope(|sc| {
            let h = sc.spawn(move || { let mut rd = rd; let mut o = vec![]; std::thread::sleep(Duration::from_millis(hold)); let _ = rd.read_to_end(&mut o); o });
            if let Some(mut p) = stdin { sc.spawn(move || { std::thread::sleep(Duration::from_millis(wait)); let _ = p.write_all(b"y\n"); }); }
            let e = crate::exec::wait(&mut ch, 150.0);
            out = h.join().unwrap_or_default();
            e
        });
        c.rep.add("runs_with_perturbed_schedule", 1);
        let out = out[junk.min(out.len())..].to_vec();
        let err = fs::read(&pe).unwrap_or_default();
        Run { out, err, end, wall: 0.0 }
    } else {
        let stdin = ask.then(|| [b"y\n".to_vec(), b"Y".to_vec(), b"n\n".to_vec(), vec![], b"\xff\xfe\n".to_vec()][if r.chance(0.6) { 0 } else { r.idx(5) }].clone());
        crate::exec::run(&Spec { bin: &bin.1, args: argv.clone(), cwd: &cwd, stdin, env: vec![(var.into(), opt.into())], cpu: cpu_allow(c), wall: 150.0 })?
    };
    c.note(run.describe());
    c.rep.add("program_runs", 1);
    let e = run.etext();
    if let Some(m) = report_of(&e) { return bad(&format!("{tool}-report"), m); }
    if e.contains("FATAL: ") && e.contains("Sanitizer") || run.end == End::Exit(86) { return Err(Fail::Harness(format!("the {tool} build does not work: {}", tail(&e)))); }
    match run.end {
        End::Signal(s) if matches!(s, 4 | 7 | 8 | 11) => return bad("signal", format!("killed by signal {s}: {}", tail(&e))),
        End::Signal(6) if !e.contains("panicked") && !e.contains("memory allocation of") => return bad("signal", format!("aborted: {}", tail(&e))),
        End::Slow | End::Hung => return Err(Fail::Inconclusive("still working after the time limit".into())),
        _ => {}
    }
    if e.contains("panicked") { c.rep.add("runs_that_panicked", 1); }
    if run.done() { c.rep.add("runs_done", 1); }
    c.rep.nontrivial = run.done();
    c.rep.sample = Some(format!("{tool}: mapeditr {}", shell(&argv)).chars().take(500).collect());
    Ok(())
}
