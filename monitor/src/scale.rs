//! C28: what a command costs on large maps.
use crate::cmd::*;
use crate::exec::*;
use crate::ffi::{self, Db};
use crate::gen::*;
use crate::mb::EncOpts;
use crate::model::apply;
use crate::props::*;
use crate::rng::*;
use crate::runner::*;
use crate::world::*;
use std::fs;
use std::path::Path;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, Default)]
struct Cost { /** seconds */ cpu: f64, /** kB */ mem: u64, files: u64, threads: u64, output: u64, wall: f64 }

/// Runs the program to its end and watches what it takes.
fn measure(c: &mut Case, argv: &[String], cwd: &Path) -> Result<(Cost, Run), Fail> {
    let bin = c.bin().clone();
    let tmp = c.sub("tmp");
    fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let (ch, po, pe) = spawn(&Spec { bin: &bin.1, args: argv.to_vec(), cwd, stdin: None, env: vec![("SQLITE_TMPDIR".into(), tmp.display().to_string())], cpu: cpu_allow(c), wall: 0.0 }, "")?;
    let pid = ch.id();
    let mut k = Cost::default();
    let mut seen = 0u64;
    let end = loop {
        let mut me = false;
        if let Ok(s) = fs::read_to_string(format!("/proc/{pid}/status")) {
            let num = |l: &str| l.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            for l in s.lines() {
                if l.starts_with("Name:") { me = l.contains(bin.1.file_name().unwrap().to_str().unwrap_or("?")); }
                // Before exec the figures are the monitor's own.
                if me && l.starts_with("VmHWM:") { k.mem = k.mem.max(num(l)); seen += 1; }
                if me && l.starts_with("Threads:") { k.threads = k.threads.max(num(l)); }
            }
        }
        if me && seen % 16 == 1 { k.files = k.files.max(fs::read_dir(format!("/proc/{pid}/fd")).map_or(0, |d| d.count() as u64)); }
        if let Some((e, cpu)) = ffi::reap(pid) { k.cpu = cpu; break e; }
        if t0.elapsed() > Duration::from_secs(240) {
            unsafe { ffi::kill(pid as i32, 9) };
            while ffi::reap(pid).is_none() { std::thread::sleep(Duration::from_millis(5)); }
            let _ = fs::remove_file(&po); let _ = fs::remove_file(&pe);
            return Err(Fail::Inconclusive("still working after the time limit".into()));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    k.wall = t0.elapsed().as_secs_f64();
    let run = Run { out: fs::read(&po).unwrap_or_default(), err: fs::read(&pe).unwrap_or_default(), end, wall: k.wall };
    k.output = (run.out.len() + run.err.len()) as u64;
    let _ = fs::remove_file(&po);
    let _ = fs::remove_file(&pe);
    c.rep.add("program_runs", 1);
    c.rep.add("status_samples", seen);
    if let Some(f) = run.fault() { c.note(run.describe()); return bad("crash", f); }
    if !run.done() { c.note(run.describe()); return bad("not-done", format!("no success reported: {}", tail(&run.text()))); }
    Ok((k, run))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { /** Few thousand blocks of tens of kilobytes. */ Memory, /** Very many rows, mostly undecodable. */ Rows, /** Many small blocks. */ Blocks }

/// A box of at least n positions, as a cube, a plane or a line (which has the same cross-section for all n up to most).
fn shape(seed: u64, n: i32, most: i32, wide: bool) -> (P, P) {
    let r = &mut Rng::new(seed);
    let s = match r.idx(if wide { 2 } else { 3 }) {
        0 => { let s = (n as f64).cbrt().ceil() as i32; [s, s, s] }
        1 => { let y = if wide { 4 } else { 2 } + r.i32r(0, 6); let s = ((n as f64) / y as f64).sqrt().ceil() as i32; [s, y, s] }
        _ => { let a = (most as f64 / 3000.0).ceil().max(1.0); let b = a.sqrt().ceil() as i32; [b, b, (n as f64 / (b * b) as f64).ceil() as i32] }
    };
    let mut s = s;
    r.shuffle(&mut s);
    let lo = s.map(|v| if v > 3800 { -1936 } else { r.i32r(-1900, 1900 - v) });
    (lo, [lo[0] + s[0] - 1, lo[1] + s[1] - 1, lo[2] + s[2] - 1])
}

fn write_map(path: &Path, lo: P, hi: P, n: i32, page: u32, mut data: impl FnMut(i32) -> std::sync::Arc<Vec<u8>>, order: u64) -> Result<(), String> {
    let _ = fs::remove_dir_all(path.parent().unwrap());
    fs::create_dir_all(path.parent().unwrap()).map_err(|e| e.to_string())?;
    let db = Db::create(&path.display().to_string())?;
    for s in [&format!("PRAGMA page_size={page}"), "PRAGMA journal_mode=OFF", "PRAGMA synchronous=OFF", "BEGIN", SCHEMAS[0]] { db.exec(s)?; }
    let mut keys = Vec::with_capacity(n as usize);
    'a: for z in lo[2]..=hi[2] { for y in lo[1]..=hi[1] { for x in lo[0]..=hi[0] { if keys.len() as i32 == n { break 'a; } keys.push(key_of([x, y, z])); } } }
    if order != 0 { Rng::new(order).shuffle(&mut keys); } else { keys.sort(); }
    {
        let mut st = db.prepare("INSERT INTO blocks VALUES (?,?)")?;
        for (i, k) in keys.iter().enumerate() { st.bind_i64(1, *k); let d = data(i as i32); st.bind_blob(2, &d); st.step()?; st.reset(); }
    }
    db.exec("COMMIT")
}

pub fn scaling(c: &mut Case) -> Res {
    const NAMES: [&str; 13] = ["fill", "overlay", "clone", "replacenodes", "overlay", "setparam2", "deleteblocks", "deletemeta", "setmetavar", "deleteobjects", "deletetimers", "replaceininv", "vacuum"];
    let mut r = c.rng.clone();
    let name = NAMES[c.idx as usize % NAMES.len()];
    let mode = [Mode::Memory, Mode::Rows, Mode::Blocks][(c.idx as usize / NAMES.len() + c.idx as usize) % 3];
    let f = if c.ctx.thorough { [1, 1, 2, 4][r.idx(4)] } else { 1 };
    let (n1, n2) = match mode { Mode::Memory => (2000 * f, 5000 * f), Mode::Rows => (20_000 * f, 160_000 * f), Mode::Blocks => (1000 * f, 8000 * f) };
    let p = Pal::new(&mut r);
    // A few blocks, all of which the command changes.
    let mut made: Vec<std::sync::Arc<Vec<u8>>> = vec![];
    let mut cmd = Cmd::default();
    let two: (P, P) = ([0; 3], [1, 0, 0]);
    for _ in 0..40 {
        cmd = command(&mut r, name, &p, two.0, two.1);
        cmd.invert = false;
        if cmd.p1.is_some() { cmd.p1 = Some([0; 3]); cmd.p2 = Some([31, 15, 15]); }
        if matches!(name, "clone" | "overlay") && cmd.has_offset() { cmd.offset = Some([16, 0, 0]); }
        made.clear();
        let mut w = World::default();
        let rich = Rich { heavy: 0.0, many: 0.0, ungen: 0.0, meta: 0.9, objs: 0.9, timers: 0.9, ..RICH };
        let base = block(&mut r, &p, [0; 3], &rich);
        for i in 0..if mode == Mode::Memory { 24 } else { 4 } {
            let mut b = base.clone();
            b.ts = i as u32;
            if mode == Mode::Memory {
                b.p1 = r.bytes(4096); b.p2 = r.bytes(4096);
                let n = 18_000 + r.idx(8000);
                let m0 = metadata(&mut r, &p, b.ver, false);
                let (at, v) = (r.idx(4096) as u16, r.bytes(n));
                b.meta.entry(at).or_insert_with(|| m0.clone()).vars.insert(b"blob".to_vec(), (v, false));
            }
            let q = [i, 0, 0];
            w.put(q, b, &EncOpts { seed: r.u64(), ..Default::default() });
            made.push(w.cells[&key_of(q)].raw.clone());
        }
        let src = (name == "overlay").then(|| w.clone());
        if cmd.has_offset() || name == "overlay" || name == "clone" || nontrivial(&apply(&cmd, &w, src.as_ref()), &w) { break; }
    }
    // Positions of objects lie in the block of origin; they do not matter here.
    let part = r.chance(0.25);
    let far = if name == "clone" || cmd.has_offset() { [[16, 0, 0], [5, 3, -7], [0, 0, -16], [-17, 16, 15]][r.idx(4)] } else { [0; 3] };
    c.rep.hash = strhash(&format!("{cmd:?} {mode:?} {far:?}")) ^ r.u64();
    c.rep.add(&format!("cmd_{name}"), 1);
    c.rep.add(&format!("mode_{mode:?}"), 1);
    let order = if r.chance(0.6) { 0 } else { r.u64() | 1 };
    let page = [1024, 4096, 4096, 16384][r.idx(4)];
    let form = r.u64();
    let small: Vec<std::sync::Arc<Vec<u8>>> = [vec![], vec![29u8], vec![24, 0, 0], b"junk".to_vec()].into_iter().map(std::sync::Arc::new).collect();
    let cwd = c.sub("run");
    let (fm, fs_) = (cwd.join("world/map.sqlite"), cwd.join("source/map.sqlite"));
    let mut cost = [Cost::default(); 2];
    let mut desc = String::new();
    let run_one = |c: &mut Case, n: i32, cmd: &Cmd, desc: &mut String| -> Result<Cost, Fail> {
        let (lo, hi) = shape(form, n, n2, cmd.offset.is_some());
        let mut rr = Rng::new(n as u64);
        let mut gen = |i: i32| match mode { Mode::Rows => if i % 97 == 5 { made[i as usize % made.len()].clone() } else { small[(i as usize + rr.idx(2)) % small.len()].clone() }, _ => made[i as usize % made.len()].clone() };
        write_map(&fm, lo, hi, n, page, &mut gen, order)?;
        if name == "overlay" { write_map(&fs_, lo, hi, n, page, &mut gen, order)?; }
        let mut r = Rng::new(1);
        let mut cm = cmd.clone();
        if cm.p1.is_some() {
            let mut a = lo.map(|v| v * 16);
            let mut b = hi.map(|v| v * 16 + 15);
            if part { a[0] += 3; b[1] -= 2; b[0] = b[0].max(a[0]); }
            for v in a.iter_mut().chain(b.iter_mut()) { *v = (*v).clamp(-31000, 31000); }
            cm.p1 = Some(a); cm.p2 = Some(b);
        }
        if name == "clone" || cm.has_offset() { cm.offset = Some(far); sane(&mut cm); }
        let argv = cm.argv("world", (name == "overlay").then_some("source"), true, &mut r);
        *desc = format!("mapeditr {}", shell(&argv)).chars().take(300).collect();
        let (k, _) = measure(c, &argv, &cwd)?;
        c.note(format!("{n} blocks: {k:?}"));
        Ok(k)
    };
    for (i, n) in [n1, n2].into_iter().enumerate() { cost[i] = run_one(c, n, &cmd, &mut desc)?; }
    let dn = (n2 - n1) as f64;
    let ratio = n2 as f64 / n1 as f64;
    c.note(format!("{desc}\n{mode:?}: {n1} and {n2} blocks: {cost:?}"));
    c.rep.nontrivial = true;
    c.rep.sample = Some(format!("{mode:?}, {n1} and {n2} blocks: {desc}: {:.2} and {:.2} s of CPU, {} and {} kB", cost[0].cpu, cost[1].cpu, cost[0].mem, cost[1].mem));
    c.rep.add("blocks_processed", (n1 + n2) as u64);
    c.rep.add(&format!("mem_growth_kB_{mode:?}"), cost[1].mem.saturating_sub(cost[0].mem));
    // Memory: what does not shrink away on a second look.
    let allowed = 30_000.0 + 0.3 * dn;
    let grew = |k: &[Cost; 2]| k[1].mem as f64 - k[0].mem as f64;
    if grew(&cost) > allowed {
        for (i, n) in [n1, n2].into_iter().enumerate() { let k = run_one(c, n, &cmd, &mut desc)?; if i == 0 { cost[0].mem = cost[0].mem.max(k.mem); } else { cost[1].mem = cost[1].mem.min(k.mem); } }
        if grew(&cost) > allowed { return bad(&format!("{name}/memory"), format!("{} kB for {n1} blocks, but {} kB for {n2} blocks of the same kind: {desc}", cost[0].mem, cost[1].mem)); }
    }
    // Time.
    let too = |k: &[Cost; 2]| k[1].cpu > 3.0 * ratio * k[0].cpu.max(0.04);
    if too(&cost) {
        for _ in 0..2 {
            for (i, n) in [n1, n2].into_iter().enumerate() { let k = run_one(c, n, &cmd, &mut desc)?; if i == 0 { cost[0].cpu = cost[0].cpu.max(k.cpu); } else { cost[1].cpu = cost[1].cpu.min(k.cpu); } }
            if !too(&cost) { break; }
        }
        if too(&cost) { return bad(&format!("{name}/time"), format!("{:.2} s of processor time for {n1} blocks, but {:.2} s for {n2} blocks of the same kind: {desc}", cost[0].cpu, cost[1].cpu)); }
    }
    for k in &cost {
        if k.files > 60 || k.threads > 60 { return bad(&format!("{name}/handles"), format!("{} open files, {} threads: {desc}", k.files, k.threads)); }
        if k.output as f64 > 4000.0 + 600.0 * k.wall { return bad(&format!("{name}/output"), format!("{} bytes of output in {:.1} s: {desc}", k.output, k.wall)); }
    }
    Ok(())
}
