//! C20, C21, C22, C25: the program's file operations, faults, kills and timing.
use crate::args::{snapshot, snapshot_diff};
use crate::cmd::*;
use crate::exec::*;
use crate::ffi::{self, Db};
use crate::gen::*;
use crate::model::*;
use crate::props::*;
use crate::rng::*;
use crate::runner::*;
use crate::trace::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const MODIFYING: [&str; 12] = ["fill", "replacenodes", "setparam2", "clone", "overlay", "deleteblocks", "deletemeta", "setmetavar", "deleteobjects", "deletetimers", "replaceininv", "vacuum"];

struct Setup { main: World, src: Option<World>, cmd: Cmd, dbo: DbOpts, sdbo: DbOpts, p: Pal, lo: P, hi: P }

/// A map whose changed pages exceed the database library's page cache (2 MB), so that
/// it writes to the file before the commit.
fn spill_world(r: &mut Rng, p: &Pal, n: i32) -> (World, P, P) {
    let (sx, sy) = (n, 7);
    let lo = [-r.i32r(0, sx), -r.i32r(0, sy), 0];
    let hi = [lo[0] + sx - 1, lo[1] + sy - 1, lo[2] + 6];
    let mut w = World::default();
    let base = block(r, p, lo, &Rich { heavy: 0.0, many: 0.0, ungen: 0.0, ..RICH });
    for z in lo[2]..=hi[2] { for y in lo[1]..=hi[1] { for x in lo[0]..=hi[0] {
        let mut b = base.clone();
        b.objs.clear();
        b.p1 = r.bytes(4096);
        b.p2 = r.bytes(4096);
        w.put([x, y, z], b, &EncOpts { seed: r.u64(), ..Default::default() });
    } } }
    (w, lo, hi)
}
use crate::mb::{decode, EncOpts};

#[derive(PartialEq, Clone, Copy)]
enum Size { Tiny, Small, /** Exceeds the page cache. */ Spill, /** Very many blocks. */ Many(i32) }
fn setup(c: &mut Case, names: &[&'static str], size: Size) -> Setup {
    let (spill, tiny, many) = (size == Size::Spill, size == Size::Tiny, matches!(size, Size::Many(_)));
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    let name = names[(c.idx + c.idx / names.len() as u64) as usize % names.len()];
    let (main, lo, hi);
    if spill { let n = 5 + r.i32r(0, 3); (main, lo, hi) = spill_world(&mut r, &p, n); }
    else if let Size::Many(n) = size { (main, lo, hi) = big_world(&mut r, &p, n, &RICH); }
    else {
        (lo, hi) = place(&mut r, if tiny { [2, 2, 2] } else { [3, 3, 3] });
        let rich = Rich { heavy: if tiny { 0.0 } else { 0.02 }, many: 0.0, meta: 0.8, objs: 0.7, timers: 0.7, ..RICH };
        main = world(&mut r, &p, lo, hi, &WorldCfg { max: [3; 3], density: 0.95, rich });
    }
    // Commands that change something, mostly.
    let mut cmd = command(&mut r, name, &p, lo, hi);
    let mut src = None;
    for _ in 0..12 {
        cmd = command(&mut r, name, &p, lo, hi);
        if (spill || many) && cmd.p1.is_some() {
            cmd.p1 = Some([lo[0] * 16 + r.i32r(0, 20), lo[1] * 16 + r.i32r(0, 20), lo[2] * 16 + r.i32r(0, 9)]);
            cmd.p2 = Some([hi[0] * 16 + r.i32r(0, 15), hi[1] * 16 + r.i32r(0, 15), hi[2] * 16 + r.i32r(0, 15)]);
            cmd.invert = false;
            if many { cmd.p2 = Some([hi[0] * 16 + 15, hi[1] * 16 + 15, hi[2] * 16 + 15]); }
            if many { for q in [&mut cmd.p1, &mut cmd.p2].into_iter().flatten() { for v in q.iter_mut() { *v = (*v).clamp(-31000, 31000); } } }
        }
        if many && name == "deleteobjects" { cmd.node = None; }
        if matches!(name, "clone" | "overlay") && cmd.has_offset() { cmd.offset = Some([r.i32r(-30, 30), r.i32r(-30, 30), r.i32r(-30, 30)]); sane(&mut cmd); }
        if name == "overlay" && src.is_none() {
            src = Some(if spill || many { let mut s = World::default(); for (k, x) in &main.cells { let mut b = (**x.block.as_ref().unwrap()).clone(); b.p1 = r.bytes(4096); b.ts ^= 1; s.put(pos_of(*k), b, &EncOpts::default()); } s }
                else { source_world(&mut r, &p, lo, hi, 0.9, Rich { heavy: 0.0, ..RICH }) });
        }
        let o = apply(&cmd, &main, src.as_ref());
        if nontrivial(&o, &main) { break; }
    }
    let mut opts = || DbOpts { wal: false, auto_vacuum: r.idx(3) as u8, holes: [0, 3, 10, 60, 400][r.idx(5)], ..db_opts(&mut r) };
    let (dbo, sdbo) = (opts(), opts());
    c.rep.hash = world_hash(&main) ^ strhash(&format!("{cmd:?}"));
    c.rep.add(&format!("cmd_{name}"), 1);
    c.rng = r;
    Setup { main, src, cmd, dbo, sdbo, p, lo, hi }
}

/// Maps on disk, pristine copies, and the command line.
struct Stage { cwd: PathBuf, tmp: PathBuf, main: PathBuf, src: Option<PathBuf>, argv: Vec<String>, noyes: Vec<String>, pristine: BTreeMap<String, Vec<u8>> }
fn stage(c: &mut Case, s: &Setup) -> Result<Stage, Fail> {
    let mut r = c.rng.fork();
    let cwd = c.sub("run");
    let tmp = c.sub("tmp");
    fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
    fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
    let m = spot(&mut r, &cwd, "world");
    write_db(&m.file.display().to_string(), &s.main, &s.dbo)?;
    let sp = match &s.src { Some(w) => { let q = spot(&mut r, &cwd, "source"); write_db(&q.file.display().to_string(), w, &s.sdbo)?; Some(q) } None => None };
    let mut r2 = r.clone();
    let a = sp.as_ref().map(|q| q.arg.as_str());
    let argv = s.cmd.argv(&m.arg, a, true, &mut r);
    let noyes = s.cmd.argv(&m.arg, a, false, &mut r2);
    let pristine = snapshot(&cwd);
    Ok(Stage { main: m.file.clone(), src: sp.map(|q| q.file), argv, noyes, pristine, cwd, tmp })
}
fn restore(st: &Stage) {
    for (k, _) in snapshot(&st.cwd) { if !st.pristine.contains_key(&k) { let p = st.cwd.join(&k); if k.ends_with('/') { let _ = fs::remove_dir_all(p); } else { let _ = fs::remove_file(p); } } }
    for (k, b) in &st.pristine { if !k.ends_with('/') { let p = st.cwd.join(k); if fs::read(&p).ok().as_ref() != Some(b) { let _ = fs::write(p, b); } } }
    if let Ok(d) = fs::read_dir(&st.tmp) { for e in d.flatten() { let _ = fs::remove_file(e.path()); } }
}

fn shim_env(c: &Case, st: &Stage, log: &Path, extra: &[(&str, String)]) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![
        ("LD_PRELOAD".into(), c.ctx.tools["shim"].display().to_string()),
        ("VSHIM_LOG".into(), log.display().to_string()),
        ("VSHIM_ROOT".into(), c.dir.display().to_string()),
        ("SQLITE_TMPDIR".into(), st.tmp.display().to_string()),
    ];
    for (k, x) in extra { v.push((k.to_string(), x.clone())); }
    v
}
fn shimmed(c: &mut Case, st: &Stage, argv: &[String], stdin: Option<Vec<u8>>, extra: &[(&str, String)]) -> Result<(Run, Vec<Op>), Fail> {
    let log = c.sub("trace.bin");
    let _ = fs::remove_file(&log);
    let bin = c.bin().clone();
    let run = crate::exec::run(&Spec { bin: &bin.1, args: argv.to_vec(), cwd: &st.cwd, stdin, env: shim_env(c, st, &log, extra), cpu: cpu_allow(c), wall: 120.0 })?;
    c.rep.add("program_runs", 1);
    let b = fs::read(&log).map_err(|e| format!("no trace: {e}"))?;
    let ops = parse(&b)?;
    let _ = fs::remove_file(&log);
    Ok((run, ops))
}

fn abs_pristine(st: &Stage) -> BTreeMap<String, Vec<u8>> {
    st.pristine.iter().filter(|(k, _)| !k.ends_with('/')).map(|(k, b)| (norm(&st.cwd.join(k).display().to_string()), b.clone())).collect()
}
type Rows2 = BTreeMap<i64, Vec<u8>>;
fn rows_of(path: &Path) -> Result<Rows2, String> {
    let db = Db::open(&path.display().to_string())?;
    let ic = db.scalar("PRAGMA integrity_check")?;
    if ic != "ok" { return Err(format!("integrity check: {ic}")); }
    drop(db);
    Ok(read_db(&path.display().to_string())?.0)
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum State { Pre, Post, Both }
/// Rows with the same meaning: runs order metadata variables differently.
fn same(a: Option<&Vec<u8>>, b: Option<&Vec<u8>>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x == y || match (decode(x), decode(y)) { (Ok(mut p), Ok(mut q)) => { p.normalize(); q.normalize(); p == q } _ => false },
        (None, None) => true,
        _ => false,
    }
}
fn same_rows(a: &Rows2, b: &Rows2) -> bool { a.len() == b.len() && a.iter().all(|(k, v)| same(Some(v), b.get(k))) }
struct Judge { pre: Rows2, post: Rows2, seen: HashSet<u64>, /** Of the file after an undisturbed vacuum: all pages, unused pages. */ pages: Option<(i64, i64)> }
fn pages_of(path: &Path) -> Result<(i64, i64), String> {
    let db = Db::open(&path.display().to_string())?;
    let n = |q: &str| -> Result<i64, String> { db.scalar(q)?.parse::<i64>().map_err(|e| e.to_string()) };
    Ok((n("PRAGMA page_count")?, n("PRAGMA freelist_count")?))
}
impl Judge {
    fn classify(&self, rows: &Rows2) -> Option<State> {
        match (*rows == self.pre, same_rows(rows, &self.post)) { (true, true) => Some(State::Both), (true, false) => Some(State::Pre), (false, true) => Some(State::Post), _ => None }
    }
    fn mixture(&self, rows: &Rows2) -> String {
        let (mut a, mut b, mut x) = (0, 0, 0);
        let keys: BTreeSet<i64> = rows.keys().chain(self.pre.keys()).chain(self.post.keys()).copied().collect();
        for k in keys { let (v, p, q) = (rows.get(&k), self.pre.get(&k), self.post.get(&k)); if p == q { if v != p { x += 1; } } else if v == p { a += 1 } else if same(v, q) { b += 1 } else { x += 1 } }
        format!("{a} rows as before the command, {b} rows as after it, {x} neither")
    }
    /// Lay out an image of the files and look at the map as the next user of it would.
    fn image(&mut self, c: &mut Case, st: &Stage, files: &BTreeMap<String, Vec<u8>>, what: &str, must_post: bool) -> Res {
        let base = norm(&st.main.display().to_string());
        let mut h = must_post as u64;
        for (p, b) in files { if p.starts_with(&base) { h = mix(h ^ hash_bytes(p.as_bytes()) ^ mix(hash_bytes(b))); } }
        if !self.seen.insert(h) { c.rep.add("crash_images_equal_to_earlier", 1); return Ok(()); }
        let d = c.sub("img");
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        let f = d.join("m.sqlite");
        for (p, b) in files { if let Some(suf) = p.strip_prefix(&base) { if suf.is_empty() || suf.starts_with('-') { fs::write(d.join(format!("m.sqlite{suf}")), b).map_err(|e| e.to_string())?; } } }
        c.rep.add("crash_images_opened", 1);
        c.rep.distinct.push(h);
        // The master-journal and hot-journal logic only needs the files to lie together.
        match rows_of(&f) {
            Err(e) => bad("crash-corrupt", format!("{what}: the map is unusable: {e}")),
            Ok(rows) => match self.classify(&rows) {
                None => bad("crash-mixture", format!("{what}: neither before nor after: {}", self.mixture(&rows))),
                Some(State::Pre) if must_post => bad("crash-lost", format!("{what}: success had been reported, but the map is as before the command")),
                Some(s) => { c.rep.add(match s { State::Pre => "images_before", State::Post => "images_after", State::Both => "images_same" }, 1); let _ = fs::remove_dir_all(&d); Ok(()) }
            },
        }
    }
}

fn says_done(o: &Op) -> bool { o.op == '1' && String::from_utf8_lossy(&o.data).contains("Done.") }

/// C21
pub fn atomic(c: &mut Case) -> Res {
    let th = c.ctx.thorough;
    let mut spill = c.idx % 12 == 4;
    let many = c.idx % 16 == 10;
    let n = c.rng.weighted(&if th { [2, 3, 3, 2, 1] } else { [4, 4, 2, 1, 0] });
    let mut s = setup(c, &MODIFYING, if spill { Size::Spill } else if many { Size::Many([700, 1100, 2100, 4200, 10500][n]) } else { Size::Small });
    if spill { c.rep.add("maps_larger_than_page_cache", 1); }
    if many { c.rep.add("maps_of_very_many_blocks", 1); spill = true; } // Fewer points per map.
    s.dbo.wal = c.idx % 12 == 7;
    if s.dbo.wal { c.rep.add("maps_in_wal_mode", 1); }
    let st = stage(c, &s)?;
    let mut r = c.rng.fork();
    // 1. Undisturbed, recorded.
    // As if it took minutes or days: nothing may be stored early for that.
    let clock = [1u64, 1, 1, 3000, 500_000][c.idx as usize % 5];
    let mut extra = vec![("VSHIM_DATA", "1".to_string())];
    if clock > 1 { extra.push(("VSHIM_CLOCK", clock.to_string())); c.rep.add("runs_with_a_fast_clock", 1); }
    let (run, ops) = shimmed(c, &st, &st.argv.clone(), None, &extra)?;
    c.note(format!("build: {}\ncommand: mapeditr {}", c.bin().0, shell(&st.argv)));
    c.note(run.describe());
    if let Some(f) = run.fault() { return bad("crash", f); }
    if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
    if !run.done() { return bad("not-done", format!("an undisturbed command did not report success: {:?}", run.lines().last())); }
    let pre: Rows2 = s.main.raws().into_iter().map(|(k, v)| (k, (*v).clone())).collect();
    let post = rows_of(&st.main).map_err(|e| Fail::Bad(Bad { sig: "unreadable".into(), msg: e }))?;
    let pages = if s.cmd.name == "vacuum" { Some(pages_of(&st.main)?) } else { None };
    let mut j = Judge { pre, post, seen: HashSet::new(), pages };
    c.rep.nontrivial = j.pre != j.post || s.cmd.name == "vacuum";
    c.rep.sample = Some(format!("{} rows, {} recorded operations; mapeditr {}", j.pre.len(), ops.len(), shell(&st.argv)).chars().take(500).collect());
    c.rep.add("recorded_operations", ops.len() as u64);
    let mut disk = Disk::new(&abs_pristine(&st));
    for o in &ops { disk.step(o); }
    let now = fs::read(&st.main).map_err(|e| e.to_string())?;
    if disk.killed().get(&norm(&st.main.display().to_string())) != Some(&now) { return Err(Fail::Inconclusive("the record of file operations does not explain the final file".into())); }
    // 2. Crash images.
    let mut interesting: Vec<usize> = vec![];
    let done_at = ops.iter().position(says_done);
    let mut seen_mod = vec![];
    for (i, o) in ops.iter().enumerate() {
        if matches!(o.op, 'W' | 'T' | 'S' | 'U' | 'R' | 'O' | 'C') { seen_mod.push(i); }
        if matches!(o.op, 'S' | 'U' | 'T' | 'R') || Some(i) == done_at { for k in i.saturating_sub(1)..=(i + 2).min(ops.len()) { interesting.push(k); } }
    }
    interesting.push(ops.len());
    let cap = if spill { if th { 60 } else { 14 } } else if th { 120 } else { 40 };
    let mut points: BTreeSet<usize> = BTreeSet::new();
    r.shuffle(&mut interesting);
    for &k in interesting.iter().take(cap * 2 / 3) { points.insert(k); }
    if let Some(d) = done_at { points.insert(d); points.insert(d + 1); points.insert(ops.len()); }
    for _ in 0..cap / 3 { if !seen_mod.is_empty() { points.insert(*r.pick(&seen_mod)); } }
    let mut disk = Disk::new(&abs_pristine(&st));
    let mut retry: Vec<(BTreeMap<String, Vec<u8>>, String)> = vec![];
    for k in 0..=ops.len() {
        if points.contains(&k) {
            let must = done_at.is_some_and(|d| k > d) || done_at == Some(k);
            let at = format!("crash before operation {k} of {} ({})", ops.len(), ops.get(k).map(|o| format!("{} fd {} at {}", o.op, o.fd, o.off)).unwrap_or("end".into()));
            c.rep.add("kill_points", 1);
            j.image(c, &st, &disk.killed(), &format!("kill, {at}"), must)?;
            if disk.unsynced() > 0 {
                for _ in 0..if spill { 1 } else { 3 } {
                    c.rep.add("power_loss_points", 1);
                    let f = disk.power_loss(&mut r);
                    j.image(c, &st, &f, &format!("power loss, {at}"), must)?;
                }
            } else if must { let f = disk.power_loss(&mut r); j.image(c, &st, &f, &format!("power loss, {at}"), must)?; }
            // Keep some images in which the command had not taken effect, to start it anew.
            if !must && disk.version > 0 { let q = r.idx(8); if retry.len() < 12 || q < 3 { if retry.len() >= 12 { let i = r.idx(12); retry.remove(i); } retry.push((if disk.unsynced() > 0 && q % 2 == 0 { disk.power_loss(&mut r) } else { disk.killed() }, at)); } }
        }
        if let Some(o) = ops.get(k) { disk.step(o); }
    }
    // 2b. The same command again, on what an interrupted run left behind.
    r.shuffle(&mut retry);
    for (files, at) in retry.into_iter().take(if th { 6 } else { 2 }) {
        restore(&st);
        let base = norm(&st.main.display().to_string());
        let m = st.main.display().to_string();
        for (p, b) in &files { if let Some(suf) = p.strip_prefix(&base) { fs::write(format!("{m}{suf}"), b).map_err(|e| e.to_string())?; } }
        let bin = c.bin().clone();
        let pre_ok = { let d = c.sub("img"); let _ = fs::remove_dir_all(&d); fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            for (p, b) in &files { if let Some(suf) = p.strip_prefix(&base) { fs::write(d.join(format!("m.sqlite{suf}")), b).map_err(|e| e.to_string())?; } }
            let rows = rows_of(&d.join("m.sqlite"))?; j.classify(&rows) };
        if pre_ok == Some(State::Post) { continue; }
        let run = crate::exec::run(&Spec { bin: &bin.1, args: st.argv.clone(), cwd: &st.cwd, stdin: None, env: vec![], cpu: cpu_allow(c), wall: 120.0 })?;
        c.rep.add("program_runs", 1);
        c.rep.add("restarts_after_an_interruption", 1);
        if files.keys().any(|k| k.ends_with("-journal")) { c.rep.add("restarts_with_a_journal_left", 1); }
        c.note(format!("--- started anew after {at}\n{}", run.describe()));
        if let Some(f) = run.fault() { return bad("retry-crash", format!("started anew after {at}: {f}")); }
        if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
        if !run.done() { return bad("retry-refused", format!("started anew after {at}: {:?}", run.lines().last())); }
        match rows_of(&st.main) {
            Err(e) => return bad("retry-corrupt", format!("started anew after {at}: the map is unusable: {e}")),
            Ok(rows) => if !same_rows(&rows, &j.post) { return bad("retry-effect", format!("started anew after {at}: {}", j.mixture(&rows))); }
        }
    }
    // 3. Faults and real kills.
    let mut total: BTreeMap<char, u64> = BTreeMap::new();
    restore(&st);
    let (_, ops) = shimmed(c, &st, &st.argv.clone(), None, &[("VSHIM_READS", "1".into())])?;
    for o in &ops { if let Some(k) = match o.op { 'W' => Some('w'), 'T' => Some('t'), 'S' => Some('s'), 'U' => Some('u'), 'O' => Some('o'), 'P' => Some('r'), 'L' => Some('l'), _ => None } { *total.entry(k).or_default() += 1; } }
    let classes: Vec<char> = total.keys().copied().collect();
    if classes.is_empty() { return Ok(()); }
    let nf = if spill { if th { 16 } else { 5 } } else if th { 40 } else { 10 };
    for q in 0..nf {
        restore(&st);
        let k = if q < 2 { 'r' } else { *r.pick(&classes) };
        if !total.contains_key(&k) { continue; }
        let n = total[&k];
        let nth = match r.idx(4) { 0 => 1 + r.u64() % n.min(6), 1 => n - r.u64() % n.min(6), _ => 1 + r.u64() % n };
        let kill = r.chance(0.2);
        let action = if kill { ["kill", "midkill"][r.idx(2)].to_string() } else {
            match k { 'w' => ["28", "5", "122", "27", "short"][r.idx(5)], 'r' => "5", 's' => ["5", "28"][r.idx(2)], 't' => ["5", "28"][r.idx(2)], 'u' => ["5", "13"][r.idx(2)], 'o' => ["13", "24", "28", "5"][r.idx(4)], _ => ["11", "5", "37"][r.idx(3)] }.to_string() };
        let sticky = !kill && action != "short" && r.chance(0.35);
        let f = format!("{k}:{nth}:{action}:{}", sticky as u8);
        fault_run(c, &st, &j, &f, &[("VSHIM_FAULT", f.clone())], None)?;
        c.rep.add(&format!("faults: {}{}", match k { 'w' => "write", 'r' => "read", 's' => "sync", 't' => "truncate", 'u' => "unlink", 'o' => "open", _ => "lock" }, if kill { ", killed" } else if sticky { ", lasting" } else { "" }), 1);
    }
    // 4. Another program holds the database.
    if c.idx % 3 == 0 {
        restore(&st);
        let k = r.idx(3);
        let db = Db::open(&st.main.display().to_string())?;
        let mut held = None;
        match k { 0 => db.exec("BEGIN EXCLUSIVE")?, 1 => db.exec("BEGIN IMMEDIATE")?, _ => { db.exec("BEGIN")?; let mut q = db.prepare("SELECT pos FROM blocks")?; let _ = q.step()?; held = Some(q); } }
        c.rep.add("runs_against_a_lock", 1);
        let what = ["an exclusive lock", "a reserved lock", "a shared lock"][k];
        let res = fault_run_only(c, &st, what, &[], None);
        drop(held);
        drop(db);
        let (run, done) = res?;
        judge_fault(c, &st, &j, what, &run, done)?;
    }
    // 4b. The database refuses to store or delete one particular mapblock.
    if s.cmd.name != "vacuum" {
        let keys: Vec<i64> = j.pre.keys().chain(j.post.keys()).copied().collect::<BTreeSet<i64>>().into_iter().filter(|k| j.pre.get(k) != j.post.get(k)).collect();
        for _ in 0..if keys.is_empty() { 0 } else if th { 6 } else { 2 } {
            restore(&st);
            let (k, kind) = (*r.pick(&keys), *r.pick(&["ABORT", "FAIL", "ROLLBACK"]));
            {
                let db = Db::open(&st.main.display().to_string())?;
                for (n, ev, row) in [("a", "INSERT", "NEW"), ("b", "UPDATE", "NEW"), ("c", "DELETE", "OLD")] {
                    db.exec(&format!("CREATE TRIGGER refuse_{n} BEFORE {ev} ON blocks WHEN {row}.pos = {k} BEGIN SELECT RAISE({kind}, 'refused'); END"))?;
                }
            }
            fault_run(c, &st, &j, &format!("block {:?} is refused ({kind})", pos_of(k)), &[], None)?;
            c.rep.add("runs_with_a_refused_row", 1);
        }
    }
    // 4c. The map overlaid onto itself: may be refused, but not done by halves.
    if s.cmd.name == "overlay" {
        restore(&st);
        let mut argv = st.argv.clone();
        let i = argv.iter().position(|a| a == "overlay").unwrap();
        let src = st.src.as_ref().unwrap();
        let names_source = |a: &str| { let Ok(p) = fs::canonicalize(st.cwd.join(a)) else { return false }; let Ok(q) = fs::canonicalize(src) else { return false }; p == q || Some(p.as_path()) == q.parent() };
        let Some(k) = (i + 1..argv.len()).find(|&k| names_source(&argv[k])) else { return Err(Fail::Harness("no source argument".into())) };
        argv[k] = st.main.display().to_string();
        let bin = c.bin().clone();
        let run = crate::exec::run(&Spec { bin: &bin.1, args: argv, cwd: &st.cwd, stdin: None, env: vec![], cpu: cpu_allow(c), wall: 120.0 })?;
        c.rep.add("program_runs", 1);
        c.rep.add("maps_overlaid_onto_themselves", 1);
        c.note(format!("--- onto itself\n{}", run.describe()));
        if let Some(f) = run.fault() { return bad("self-crash", f); }
        if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
        let rows = rows_of(&st.main).map_err(|e| Fail::Bad(Bad { sig: "self-corrupt".into(), msg: e }))?;
        if run.done() {
            c.rep.add("maps_overlaid_onto_themselves_done", 1);
            let d = compare(&apply(&s.cmd, &s.main, Some(&s.main)), &rows, &s.cmd.target());
            if !d.is_empty() { return bad("self-effect", format!("overlaid onto itself: {}", report(&d))); }
        } else if rows != j.pre { return bad("self-mixture", format!("overlaid onto itself without success, but changed: {}", j.mixture(&rows))); }
    }
    // 5. Signals and a vanishing reader of the output at any moment.
    if c.idx % 3 == 1 {
        for _ in 0..if th { 6 } else { 2 } {
            restore(&st);
            let sig = [2, 15, 9, 1, 0][r.idx(5)];
            let wait = Duration::from_micros(((r.idx(1000) as f64 / 1000.0) * run.wall * 1.1 * 1e6) as u64);
            let what = if sig == 0 { "the output's reader goes away".to_string() } else { format!("signal {sig}") };
            fault_run(c, &st, &j, &what, &[], Some((sig, wait)))?;
            c.rep.add("runs_with_a_signal_or_closed_output", 1);
        }
    }
    Ok(())
}

fn fault_run_only(c: &mut Case, st: &Stage, what: &str, extra: &[(&str, String)], sig: Option<(i32, Duration)>) -> Result<(Run, bool), Fail> {
    let log = c.sub("trace.bin");
    let _ = fs::remove_file(&log);
    let bin = c.bin().clone();
    let spec = Spec { bin: &bin.1, args: st.argv.clone(), cwd: &st.cwd, stdin: None, env: shim_env(c, st, &log, extra), cpu: cpu_allow(c), wall: 120.0 };
    let run = match sig {
        None => crate::exec::run(&spec)?,
        Some((0, wait)) => {
            let t0 = Instant::now();
            let mut cmd = Command::new(spec.bin);
            cmd.args(&spec.args).current_dir(spec.cwd).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
            for (k, v) in &spec.env { cmd.env(k, v); }
            let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
            let o = ch.stdout.take();
            std::thread::sleep(wait);
            drop(o);
            let end = wait_child(&mut ch, 120.0);
            Run { out: vec![], err: vec![], end, wall: t0.elapsed().as_secs_f64() }
        }
        Some((s, w)) => {
            let t0 = Instant::now();
            let (mut ch, po, pe) = spawn(&spec, "")?;
            std::thread::sleep(w);
            unsafe { ffi::kill(ch.id() as i32, s); }
            let end = wait_child(&mut ch, 120.0);
            Run { out: fs::read(&po).unwrap_or_default(), err: fs::read(&pe).unwrap_or_default(), end, wall: t0.elapsed().as_secs_f64() }
        }
    };
    c.rep.add("program_runs", 1);
    c.note(format!("--- disturbed by {what}\n{}", run.describe()));
    let _ = fs::remove_file(&log);
    let done = run.done();
    Ok((run, done))
}
fn wait_child(ch: &mut std::process::Child, wall: f64) -> End { crate::exec::wait(ch, wall) }

fn judge_fault(c: &mut Case, st: &Stage, j: &Judge, what: &str, run: &Run, done: bool) -> Res {
    if run.end == End::Hung { return bad("fault-hang", format!("{what}: the program hangs")); }
    if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
    if let End::Signal(s) = run.end { if matches!(s, 4 | 6 | 7 | 8 | 11) { return bad("fault-crash", format!("{what}: killed by signal {s}")); } }
    c.rep.add(if done { "disturbed_runs_successful" } else { "disturbed_runs_failed" }, 1);
    match rows_of(&st.main) {
        Err(e) => bad("fault-corrupt", format!("{what}: the map is unusable afterwards: {e}")),
        Ok(rows) => match j.classify(&rows) {
            None => bad("fault-mixture", format!("{what}: neither before nor after: {}; success {}", j.mixture(&rows), if done { "was reported" } else { "was not reported" })),
            Some(State::Pre) if done => bad("fault-false-success", format!("{what}: success was reported, but the map is as before the command")),
            _ => {
                // vacuum changes no row, but it does change the file.
                if let (true, Some(want)) = (done, j.pages) {
                    let got = pages_of(&st.main)?;
                    c.rep.add("vacuums_done_though_disturbed", 1);
                    if got != want { return bad("fault-vacuum", format!("{what}: success was reported, but the file has {} pages, {} of them unused, and not {} and {}", got.0, got.1, want.0, want.1)); }
                }
                if done && run.error_shown() { return bad("fault-error-and-success", format!("{what}: an error was shown and success reported nevertheless: {}", run.text().replace('\n', " | "))); }
                Ok(())
            }
        },
    }
}
fn fault_run(c: &mut Case, st: &Stage, j: &Judge, what: &str, extra: &[(&str, String)], sig: Option<(i32, Duration)>) -> Res {
    let (run, done) = fault_run_only(c, st, what, extra, sig)?;
    judge_fault(c, st, j, what, &run, done)
}

/// Leave a database as a program killed in the middle of a transaction leaves it: pages
/// overwritten, and the journal to undo that beside the file. False if that did not work out.
fn make_hot(path: &Path, r: &mut Rng) -> Result<bool, String> {
    let f = path.display().to_string();
    let js = format!("{f}-journal");
    let db = Db::open(&f)?;
    if db.scalar("PRAGMA journal_mode")? != "delete" { return Ok(false); }
    db.exec("PRAGMA cache_size=2")?;
    db.exec(if r.chance(0.5) { "PRAGMA synchronous=FULL" } else { "PRAGMA synchronous=OFF" })?;
    db.exec("BEGIN IMMEDIATE")?;
    db.exec(["UPDATE blocks SET data=randomblob(length(data))", "DELETE FROM blocks", "UPDATE blocks SET data=zeroblob(6000)"][r.idx(3)])?;
    for k in 0..30 { db.exec(&format!("INSERT INTO blocks (pos,data) VALUES ({}, randomblob(3000))", 9_000_000_000_000i64 + k))?; }
    let copy = (fs::read(path).map_err(|e| e.to_string())?, fs::read(&js).unwrap_or_default());
    db.exec("ROLLBACK")?;
    drop(db);
    if copy.1.len() < 512 || copy.0 == fs::read(path).map_err(|e| e.to_string())? { return Ok(false); }
    fs::write(path, &copy.0).map_err(|e| e.to_string())?;
    fs::write(&js, &copy.1).map_err(|e| e.to_string())?;
    Ok(true)
}

/// Leave a map in WAL mode as a server that was killed leaves it: the newest content of
/// the rows only in the log.
fn make_walled(path: &Path, w: &World) -> Result<bool, String> {
    if w.cells.is_empty() { return Ok(false); }
    let f = path.display().to_string();
    let log = format!("{f}-wal");
    let db = Db::open(&f)?;
    if db.scalar("PRAGMA journal_mode")? != "wal" { return Ok(false); }
    db.exec("UPDATE blocks SET data=x'19'")?;
    db.scalar("PRAGMA wal_checkpoint(TRUNCATE)")?;
    db.exec("PRAGMA wal_autocheckpoint=0")?;
    db.exec("BEGIN")?;
    {
        let mut st = db.prepare("UPDATE blocks SET data=? WHERE pos=?")?;
        for (k, x) in &w.cells { st.bind_blob(1, &x.raw); st.bind_i64(2, *k); st.step()?; st.reset(); }
    }
    db.exec("COMMIT")?;
    let copy = (fs::read(path).map_err(|e| e.to_string())?, fs::read(&log).unwrap_or_default());
    drop(db);
    for s in ["-wal", "-shm"] { let _ = fs::remove_file(format!("{f}{s}")); }
    if copy.1.len() < 64 { return Err("no log was left".into()); }
    fs::write(path, &copy.0).map_err(|e| e.to_string())?;
    fs::write(&log, &copy.1).map_err(|e| e.to_string())?;
    Ok(true)
}

#[path = "concur.rs"]
mod concur;
pub use concur::isolation;

/// C22
pub fn source_untouched(c: &mut Case) -> Res {
    let mut s = setup(c, &["overlay"], if c.idx % 40 == 7 { Size::Spill } else { Size::Small });
    let mut r = c.rng.fork();
    if r.chance(0.4) { // Unusual sources: damaged blocks, other tables, free pages.
        let p = Pal::new(&mut r);
        // Where the effect is judged below, nothing a tolerant reader may overlook.
        let gray = c.idx % 8 != 3 && c.idx % 6 != 5;
        if let Some(w) = &mut s.src { damage_world(&mut r, w, &p, 0.3, gray, &RICH); }
    }
    s.sdbo.wal = c.idx % 8 == 3;
    let wal = s.sdbo.wal;
    let mut st = stage(c, &s)?;
    // A source left behind by an interrupted program: may be refused, not repaired.
    let hot = !wal && c.idx % 6 == 5 && make_hot(st.src.as_ref().unwrap(), &mut r)?;
    if hot { st.pristine = snapshot(&st.cwd); c.rep.add("sources_with_an_unfinished_transaction", 1); }
    // The newest content lies only in the log beside the source.
    let walled = wal && r.chance(0.6) && make_walled(st.src.as_ref().unwrap(), s.src.as_ref().unwrap())?;
    if walled { st.pristine = snapshot(&st.cwd); c.rep.add("sources_with_content_in_the_log", 1); }
    if r.chance(0.25) {
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(st.src.as_ref().unwrap(), fs::Permissions::from_mode(0o444)).map_err(|e| e.to_string())?;
        c.rep.add("sources_marked_read_only", 1);
    }
    let st = st;
    let sp = norm(&st.src.as_ref().unwrap().display().to_string());
    let sdir = st.src.as_ref().unwrap().parent().unwrap().to_path_buf();
    if wal { c.rep.add("sources_in_wal_mode", 1); }
    let check = |c: &mut Case, ops: &[Op], what: &str, before: &BTreeMap<String, Vec<u8>>| -> Res {
        let mut fds: BTreeMap<i32, String> = BTreeMap::new();
        for o in ops {
            match o.op {
                'O' => {
                    let p = norm(&o.path());
                    if o.res >= 0 { fds.insert(o.fd, p.clone()); }
                    if p == sp {
                        c.rep.add("opens_of_the_source", 1);
                        if o.flags & 3 != 0 { return bad("source-opened-for-writing", format!("{what}: {p} opened with flags {:#o}", o.flags)); }
                    }
                    if !wal && p.starts_with(&sp) && p != sp && o.flags & 0o100 != 0 && o.res >= 0 { return bad("source-side-file", format!("{what}: {p} created")); }
                }
                'C' => { fds.remove(&o.fd); }
                'W' | 'T' => if let Some(p) = fds.get(&o.fd) { if p == &sp || (!wal && p.starts_with(&sp)) { return bad("source-written", format!("{what}: operation {} on {p}", o.op)); } },
                'U' | 'R' => { let p = norm(&o.path()); if o.ok() && p.starts_with(&sp) && !wal { return bad("source-unlinked", format!("{what}: {p}")); } }
                _ => {}
            }
        }
        c.rep.add("operations_watched", ops.len() as u64);
        let now = snapshot(&sdir);
        let side = |k: &str| wal && (k.ends_with("-wal") && !walled || k.ends_with("-shm"));
        let f = |m: &BTreeMap<String, Vec<u8>>| -> BTreeMap<String, Vec<u8>> { m.iter().filter(|(k, _)| !side(k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
        if let Some(d) = snapshot_diff(&f(before), &f(&now)) { return bad("source-changed", format!("{what}: in the source's directory, {d}")); }
        Ok(())
    };
    let before = snapshot(&sdir);
    let (run, ops) = shimmed(c, &st, &st.argv.clone(), None, &[("VSHIM_READS", "1".into())])?;
    c.note(format!("build: {}\ncommand: mapeditr {}", c.bin().0, shell(&st.argv)));
    c.note(run.describe());
    if let Some(f) = run.fault() { return bad("crash", f); }
    if !run.done() && !hot { return bad("not-done", format!("{:?}", run.lines().last())); }
    if !run.done() && !run.error_shown() { return bad("silent", format!("refused without an error message: {:?}", run.lines().last())); }
    check(c, &ops, "undisturbed", &before)?;
    if hot {
        let rows = rows_of(&st.main)?;
        let pre: Rows2 = s.main.raws().into_iter().map(|(k, v)| (k, (*v).clone())).collect();
        if run.done() { let d = compare(&apply(&s.cmd, &s.main, s.src.as_ref()), &rows, &s.cmd.target()); if !d.is_empty() { return bad("unfinished-read", format!("an unfinished transaction of the source was copied: {}", report(&d))); } }
        else if rows != pre { return bad("refused-modified", "the source was refused, but the map changed"); }
    }
    if walled && run.done() {
        let d = compare(&apply(&s.cmd, &s.main, s.src.as_ref()), &rows_of(&st.main)?, &s.cmd.target());
        if !d.is_empty() { return bad("log-not-read", format!("not the source's newest content was copied: {}", report(&d))); }
    }
    c.rep.nontrivial = true;
    c.rep.sample = Some(format!("{} operations; mapeditr {}", ops.len(), shell(&st.argv)).chars().take(500).collect());
    let mut total: BTreeMap<char, u64> = BTreeMap::new();
    for o in &ops { if let Some(k) = match o.op { 'W' => Some('w'), 'T' => Some('t'), 'S' => Some('s'), 'U' => Some('u'), 'O' => Some('o'), 'P' => Some('r'), 'L' => Some('l'), _ => None } { *total.entry(k).or_default() += 1; } }
    let classes: Vec<char> = total.keys().copied().collect();
    for q in 0..if c.ctx.thorough { 12 } else { 4 } {
        restore(&st);
        if wal { let _ = fs::remove_file(format!("{}-shm", st.src.as_ref().unwrap().display())); }
        let before = snapshot(&sdir);
        let (argv, stdin, env, what) = match q % 4 {
            3 => { // Refused, or declined.
                if r.chance(0.5) { (st.noyes.clone(), Some(b"n\n".to_vec()), vec![], "declined".to_string()) }
                else { let mut a = st.argv.clone(); a.push("--nonsense".into()); (a, None, vec![], "refused".to_string()) }
            }
            _ => {
                let k = *r.pick(&classes);
                let f = format!("{k}:{}:{}:{}", 1 + r.u64() % total[&k], ["5", "28", "kill", "midkill"][r.idx(4)], r.chance(0.3) as u8);
                (st.argv.clone(), None, vec![("VSHIM_FAULT", f.clone())], format!("fault {f}"))
            }
        };
        let (run, ops) = shimmed(c, &st, &argv, stdin, &env)?;
        c.note(format!("--- {what}\n{}", run.describe()));
        if run.end == End::Hung { return bad("hang", what); }
        c.rep.add("disturbed_runs", 1);
        check(c, &ops, &what, &before)?;
    }
    Ok(())
}

/// C20
pub fn confirmation(c: &mut Case) -> Res {
    let s = setup(c, &MODIFYING, Size::Tiny);
    let st = stage(c, &s)?;
    let mut r = c.rng.fork();
    let before = snapshot(&st.cwd);
    let out = apply(&s.cmd, &s.main, s.src.as_ref());
    let log = c.sub("trace.bin");
    let bin = c.bin().clone();
    let asks = r.chance(0.85);
    // (answer, accepted)
    let yes: [&[u8]; 12] = [b"y\n", b"Y\n", b" y\n", b"y ", b"y", b"Y", b"\ty\t\r\n", b"y\r\n", b"  Y  \n", b"y\nn\n", b"Y\ngarbage\xff\n", b"y\n\n\n"];
    let no: [&[u8]; 45] = [b"", b"\n", b"n\n", b"N\n", b"no\n", b"yes\n", b"Yes\n", b"YES\n", b"yy\n", b"y y\n", b"y.\n", b"\ny\n", b" \ny\n", b"n\ny\n", b"1\n", b"true\n", b"ok\n", b"j\n", b"y\0\n", b"\0y\n", b"\xc3\xbd\n",
        b"\xd1\x83\n", b"\xff\xfe\n", b"y\xff\n", b"Proceed\n", b"-y\n", b"--yes\n", b"q\n", b"ye\n", b"yn\n", b"ny\n", b"\"y\"\n", b"'y'\n", b"[y]\n", b"\r\n", b"   \n", b"\t\n", b"0\n", b"sure\n", b"Yy\n", b"YY\n", b"Y/n\n", b"\xe3\x81\x8f\n", b"si\n", b"\x1by\n"];
    let accept = r.chance(0.4);
    let answer: Vec<u8> = if accept { r.pick(&yes).to_vec() } else if r.chance(0.04) { let mut v = vec![b'y'; 100_000]; v.push(b'\n'); v } else if r.chance(0.05) { let mut v: Vec<u8> = (0..r.idx(20)).map(|_| b'a' + r.idx(26) as u8).filter(|&b| b != b'y').collect(); v.push(b'\n'); v } else { r.pick(&no).to_vec() };
    let argv = if asks { st.noyes.clone() } else { st.argv.clone() };
    let mut env = shim_env(c, &st, &log, &[("VSHIM_DATA", "1".into())]);
    if r.chance(0.3) { env.push(("VSHIM_DELAY".into(), format!("{}:300:20000:300:20000:100:5000:500:30000", r.idx(1 << 30)))); c.rep.add("with_delays", 1); }
    let clock = [1u64, 60, 1000, 8000][r.weighted(&[5, 2, 2, 1])];
    if clock > 1 { env.push(("VSHIM_CLOCK".into(), clock.to_string())); c.rep.add("with_a_fast_clock", 1); }
    let spec = Spec { bin: &bin.1, args: argv.clone(), cwd: &st.cwd, stdin: Some(vec![]), env, cpu: cpu_allow(c), wall: 120.0 };
    let (mut ch, po, pe) = spawn(&spec, "")?;
    let mut pipe = ch.stdin.take();
    let mode = r.idx(4); // 0: at once, 1: after the prompt, 2: after the prompt and a pause, 3: byte by byte
    let mut early = None;
    if asks && mode > 0 {
        let t0 = Instant::now();
        loop {
            let o = fs::read(&po).unwrap_or_default();
            if String::from_utf8_lossy(&o).contains("Proceed?") { break; }
            if ch.try_wait().map(|x| x.is_some()).unwrap_or(true) || t0.elapsed().as_secs_f64() > 60.0 { break; }
            std::thread::sleep(Duration::from_millis(2));
        }
        std::thread::sleep(Duration::from_millis(if mode == 2 { 40 + r.u64() % 600 } else { r.u64() % 20 }));
        early = Some((snapshot(&st.cwd), ch.try_wait().map(|x| x.is_some()).unwrap_or(true)));
    }
    if let Some(p) = pipe.as_mut() {
        if mode == 3 && answer.len() < 50 { for b in &answer { if p.write_all(&[*b]).is_err() { break; } let _ = p.flush(); std::thread::sleep(Duration::from_millis(3)); } }
        else { let mut a = answer.clone(); if a.len() > 60_000 { a.truncate(60_000); } let _ = p.write_all(&a); }
    }
    let open_after = r.chance(0.2) && answer.iter().take(60_000).any(|&b| b == b'\n');
    if !open_after { pipe = None; }
    let end = crate::exec::wait(&mut ch, 120.0);
    drop(pipe);
    let run = Run { out: fs::read(&po).unwrap_or_default(), err: fs::read(&pe).unwrap_or_default(), end, wall: 0.0 };
    let _ = fs::remove_file(&po);
    let _ = fs::remove_file(&pe);
    c.rep.add("program_runs", 1);
    c.rep.nontrivial = nontrivial(&out, &s.main) || s.cmd.name == "vacuum";
    c.rep.hash ^= hash_bytes(&answer) ^ mode as u64 ^ asks as u64;
    let shown = String::from_utf8_lossy(&answer[..answer.len().min(40)]).into_owned();
    c.note(format!("build: {}\ncommand: mapeditr {}\nanswer {shown:?} (mode {mode}, clock x{clock})\n{}", bin.0, shell(&argv), run.describe()));
    c.rep.sample = Some(format!("mapeditr {}; answer {shown:?} -> {:?}", shell(&argv), run.lines().last()).chars().take(500).collect());
    if run.end == End::Hung { return bad("hang", format!("hangs after the answer {shown:?}")); }
    if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
    let ops = parse(&fs::read(&log).map_err(|e| e.to_string())?)?;
    let text = run.text();
    if !asks {
        c.rep.add("runs_with_yes", 1);
        if text.contains("Proceed?") { return bad("yes-asks", "a question is asked although -y was given"); }
        if ops.iter().any(|o| o.op == 'I') { return bad("yes-reads", "standard input is read although -y was given"); }
        if !run.done() { return bad("yes-not-done", format!("not carried out with -y: {:?}", run.lines().last())); }
        let rows = rows_of(&st.main)?;
        let d = compare(&out, &rows, &s.cmd.target());
        if !d.is_empty() { return bad("yes-effect", report(&d)); }
        return Ok(());
    }
    c.rep.add(if accept { "answers_accepting" } else { "answers_declining" }, 1);
    let Some(q) = text.find("Proceed?") else { return bad("no-question", format!("no question asked: {text:?}")) };
    if !text[..q].contains("warning: ") { return bad("no-warning", "no warning is shown before the question"); }
    if let Some((now, ended)) = early {
        if ended { return bad("no-wait", "the program ended without waiting for the answer"); }
        if let Some(d) = snapshot_diff(&before, &now) { return bad("early-write", format!("before any answer was given, {d}")); }
        c.rep.add("state_checked_before_the_answer", 1);
    }
    // In the record: no change of a file before input was read.
    let files = abs_pristine(&st);
    let mut disk = Disk::new(&files);
    for o in &ops {
        if o.op == 'I' { break; }
        if o.modifies(o.op == 'O' && disk.exists(&norm(&o.path()))) { return bad("early-write", format!("operation {} ({}) before the answer was read", o.op, o.path())); }
        disk.step(o);
    }
    c.rep.add("operations_watched", ops.len() as u64);
    if accept {
        if let Some(f) = run.fault() { return bad("crash", f); }
        if !run.done() { return bad("accepted-not-done", format!("answer {shown:?}: not carried out: {:?}", run.lines().last())); }
        let rows = rows_of(&st.main)?;
        let d = compare(&out, &rows, &s.cmd.target());
        if !d.is_empty() { return bad("accepted-effect", report(&d)); }
    } else {
        if let Some(d) = snapshot_diff(&before, &snapshot(&st.cwd)) { return bad("declined-modified", format!("answer {shown:?}: {d}")); }
        if run.done() { return bad("declined-done", format!("answer {shown:?}: carried out")); }
        if ops.iter().any(|o| o.modifies(true) && o.op != 'O') { return bad("declined-write", format!("answer {shown:?}: files written")); }
    }
    Ok(())
}

/// Messages in order: warnings, question, query, editing, summary, outcome.
fn stage_of(l: &str) -> Option<u8> {
    if l.starts_with("warning:") { return Some(0); }
    if l.starts_with("Proceed?") { return Some(1); }
    if l.starts_with("info: Starting") { return Some(2); }
    if l.starts_with("Querying mapblocks") { return Some(3); }
    if l.starts_with('[') && l.contains('%') || l.starts_with("Processing...") { return Some(4); }
    if l.starts_with("info: Skipped") { return Some(6); }
    if l.starts_with("info: Committing") { return Some(7); }
    if l.starts_with("info: Done") { return Some(8); }
    if l.starts_with("info:") { return Some(5); }
    None
}

pub fn check_stream(c: &mut Case, text: &str) -> Res {
    let lines: Vec<&str> = text.split(['\n', '\r']).filter(|l| !l.is_empty()).collect();
    let (mut last, mut pct, mut found, mut done) = (0, -1.0f64, 0u64, 0);
    let mut cont = false;
    for raw in &lines {
        // An answer typed by the user is not echoed; the next message follows the question.
        let mut parts = vec![*raw];
        if let Some(x) = raw.strip_prefix("Proceed? (Y/n): ") { parts = vec!["Proceed?"]; if !x.is_empty() { parts.push(x); } }
        for l in parts {
            let Some(s) = stage_of(l) else {
                if (l.starts_with("   ") && cont) || l.trim().is_empty() { continue; }
                return bad("stream-garbled", format!("unexpected output {l:?}"));
            };
            cont = true;
            c.rep.add("messages_checked", 1);
            if s < last { return bad("stream-order", format!("{l:?} after a later stage: {lines:?}").chars().take(900).collect::<String>()); }
            last = s;
            match s {
                3 => { let n = l.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<u64>().unwrap_or(0); if n < found { return bad("stream-query", format!("found count goes back: {lines:?}")); } found = n; c.rep.add("query_displays", 1); }
                4 => if let Some(p) = l.split(']').nth(1).and_then(|x| x.trim().split('%').next()).and_then(|x| x.trim().parse::<f64>().ok()) {
                    if p < pct || p > 100.0 { return bad("stream-progress", format!("progress {pct} -> {p}")); }
                    pct = p;
                    c.rep.add("progress_displays", 1);
                },
                8 => done += 1,
                _ => {}
            }
        }
    }
    if done != 1 { return bad("stream-done", format!("success reported {done} times: {lines:?}").chars().take(900).collect::<String>()); }
    Ok(())
}

/// "12:34" or "1:02:03" in seconds; None if it is not written like that.
fn seconds(s: &str) -> Option<u64> {
    let v: Vec<&str> = s.split(':').collect();
    let n: Vec<u64> = v.iter().filter_map(|x| x.parse().ok()).collect();
    if n.len() != v.len() || v[1..].iter().any(|x| x.len() != 2) { return None; }
    match n[..] { [m, s] if m < 60 && s < 60 && v[0].len() == 2 => Some(m * 60 + s), [h, m, s] if h > 0 && m < 60 && s < 60 => Some(h * 3600 + m * 60 + s), _ => None }
}
/// Do all the elapsed times shown agree with the clock, i.e. is there one moment since which
/// all of them count? A time shown was taken after some earlier output, and before its own.
fn clock_of(ops: &[Op]) -> Option<(Option<String>, u64)> {
    let w: Vec<(i64, String)> = ops.iter().filter(|o| o.op == '1').map(|o| (o.off, String::from_utf8_lossy(&o.data).into_owned())).collect();
    let (mut lo, mut hi, mut n, mut last) = (i64::MIN, i64::MAX, 0, 0);
    let mut first = true;
    for (i, (t, x)) in w.iter().enumerate() {
        let before = if i < 7 { i64::MIN } else { w[i - 7].0 };
        if first && x.contains("Querying mapblocks") { first = false; lo = lo.max(before); hi = hi.min(*t); }
        let Some(j) = x.rfind(" elapsed") else { continue };
        let shown = x[..j].rsplit(' ').next().unwrap_or("");
        let Some(e) = seconds(shown) else { return Some((Some(format!("elapsed time {shown:?}")), n)) };
        if let Some(r) = x[j..].split(" | ").nth(1).and_then(|r| r.strip_suffix(" remaining")) { if r != "--:--" && seconds(r).is_none() { return Some((Some(format!("remaining time {r:?}")), n)); } if x.contains(" 100.0%") && r != "00:00" { return Some((Some(format!("all done, but {r:?} remaining")), n)); } }
        if e < last { return Some((Some(format!("elapsed time goes back from {last} to {e} s")), n)); }
        last = e;
        n += 1;
        let ns = e as i64 * 1_000_000_000;
        lo = lo.max(before.saturating_sub(ns).saturating_sub(1_000_000_000));
        hi = hi.min(t - ns);
        if lo > hi + 1_000_000 { return Some((Some(format!("elapsed time {shown} does not agree with the clock: it is off by {:.1} s at least", (lo - hi) as f64 / 1e9)), n)); }
    }
    Some((None, n))
}

/// C25
pub fn timing(c: &mut Case) -> Res {
    let s = setup(c, &MODIFYING, if c.idx % 4 != 1 { Size::Tiny } else { Size::Small });
    let st = stage(c, &s)?;
    let mut r = c.rng.fork();
    let want = apply(&s.cmd, &s.main, s.src.as_ref());
    let blocks = s.main.cells.len().max(1) as u64;
    let ask = r.chance(0.4);
    // Delays: permille and microseconds for database steps, output, file operations, input.
    let budget = [30_000u64, 200_000, 1_500_000][r.weighted(&[5, 3, 2])];
    let per_step = (budget / (blocks * 6)).max(20);
    let pr = |r: &mut Rng| [0, 100, 500, 1000][r.idx(4)];
    let (a, b, i, w) = (pr(&mut r), pr(&mut r), pr(&mut r), pr(&mut r));
    let out_us = [200u64, 5_000, 40_000, 120_000][r.idx(4)];
    let delay = format!("{}:{a}:{}:{b}:{out_us}:{i}:{}:{w}:50000", r.idx(1 << 30), per_step * 2, per_step);
    let log = c.sub("trace.bin");
    let bin = c.bin().clone();
    let mut cmd = Command::new(&bin.1);
    cmd.args(if ask { &st.noyes } else { &st.argv }).current_dir(&st.cwd);
    for (k, v) in shim_env(c, &st, &log, &[("VSHIM_DATA", "1".into()), ("VSHIM_DELAY", delay.clone())]) { cmd.env(k, v); }
    let clock = [1u64, 10, 200, 5000][r.weighted(&[5, 1, 2, 2])];
    if clock > 1 { cmd.env("VSHIM_CLOCK", clock.to_string()); c.rep.add("with_a_fast_clock", 1); }
    cmd.env("RUST_BACKTRACE", "0");
    let pe = st.cwd.join(".err");
    cmd.stderr(fs::File::create(&pe).map_err(|e| e.to_string())?);
    // Reader: a pipe, sometimes nearly full and read late or slowly.
    let reader = r.idx(4);
    let (rd, wr) = ffi::pipe().map_err(Fail::Harness)?;
    let junk = if reader == 3 { let n = ffi::shrink_pipe(&wr) as usize; let k = n - [1, 17, 60, 200][r.idx(4)]; let _ = (&wr).write_all(&vec![b'#'; k]); k } else { 0 };
    cmd.stdout(wr);
    cmd.stdin(if ask { Stdio::piped() } else { Stdio::null() });
    let one_cpu = r.chance(0.35);
    if one_cpu { let n = r.idx(ffi::cpus()); ffi::pin(&mut cmd, n); c.rep.add("on_one_processor", 1); }
    let t0 = Instant::now();
    let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
    drop(cmd);
    ffi::limit_cpu(ch.id(), cpu_allow(c));
    let (hold, chunk, gap) = match reader { 0 => (0, 4096, 0), 1 => (0, 3, 1), 2 => (r.u64() % 300, 16, r.u64() % 4), _ => (r.u64() % 900, 512, r.u64() % 10) };
    let answer = ask.then(|| (r.u64() % 4, r.u64() % 700, r.chance(0.5)));
    let stdin = ch.stdin.take();
    let mut out = vec![];
    let end = std::thread::scope(|sc| {
        let h = sc.spawn(move || {
            let mut rd = rd;
            let mut o: Vec<u8> = vec![];
            std::thread::sleep(Duration::from_millis(hold));
            let mut buf = vec![0u8; chunk];
            while let Ok(n) = rd.read(&mut buf) { if n == 0 { break; } o.extend_from_slice(&buf[..n]); if gap > 0 && o.len() < 20_000 { std::thread::sleep(Duration::from_millis(gap)); } }
            o
        });
        if let (Some((m, ms, keep)), Some(mut p)) = (answer, stdin) {
            sc.spawn(move || {
                if m > 0 { std::thread::sleep(Duration::from_millis(ms)); }
                if m == 3 { let _ = p.write_all(b"y"); std::thread::sleep(Duration::from_millis(ms / 3)); let _ = p.write_all(b"\n"); } else { let _ = p.write_all(b"y\n"); }
                if keep { std::thread::sleep(Duration::from_millis(200)); }
            });
        }
        let e = crate::exec::wait(&mut ch, 90.0);
        out = h.join().unwrap_or_default();
        e
    });
    let out = out[junk.min(out.len())..].to_vec();
    let run = Run { out, err: fs::read(&pe).unwrap_or_default(), end, wall: t0.elapsed().as_secs_f64() };
    let _ = fs::remove_file(&pe);
    c.rep.add("program_runs", 1);
    c.note(format!("build: {}\ncommand: mapeditr {}\ndelays {delay}, clock x{clock}, reader {reader}, asked {ask} {answer:?}\n{}", bin.0, shell(if ask { &st.noyes } else { &st.argv }), run.describe()));
    if run.end == End::Hung { return bad("hang", format!("does not end (delays {delay})")); }
    if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
    if let Some(f) = run.fault() { return bad("crash", f); }
    let ops = parse(&fs::read(&log).map_err(|e| e.to_string())?)?;
    check_stream(c, &run.text())?;
    // The interleaving actually seen: order of worker and UI operations.
    let mut h = 0;
    let mut switches = 0;
    for w in ops.windows(2) { if w[0].worker != w[1].worker { switches += 1; h = mix(h ^ w[0].op as u64 ^ (w[1].op as u64) << 8 ^ (if matches!(w[1].op, '1' | '2') { 0 } else { w[1].off as u64 }) << 16); } }
    if let Some((m, n)) = clock_of(&ops) { c.rep.add("elapsed_times_checked", n); if let Some(m) = m { return bad("elapsed", m); } }
    c.rep.add("thread_switches_observed", switches);
    c.rep.hash ^= h;
    c.rep.nontrivial = switches > 0;
    c.rep.sample = Some(format!("delays {delay}, {switches} switches between threads seen, {:.2} s; mapeditr {}", run.wall, shell(&st.argv)).chars().take(500).collect());
    if run.wall > 0.5 { c.rep.add("runs_over_half_a_second", 1); }
    // Success is printed only once the result is stored.
    let d = ops.iter().position(says_done);
    let mut disk = Disk::new(&abs_pristine(&st));
    for o in &ops[..d.unwrap_or(ops.len())] { disk.step(o); }
    let key = norm(&st.main.display().to_string());
    let img = c.sub("img");
    fs::create_dir_all(&img).map_err(|e| e.to_string())?;
    for (p, b) in disk.killed() { if let Some(suf) = p.strip_prefix(&key) { fs::write(img.join(format!("m.sqlite{suf}")), b).map_err(|e| e.to_string())?; } }
    let rows_then = rows_of(&img.join("m.sqlite"))?;
    let rows = rows_of(&st.main).map_err(|e| Fail::Bad(Bad { sig: "unreadable".into(), msg: e }))?;
    if rows_then != rows { return bad("done-before-stored", "when success was printed, the result was not yet stored"); }
    let df = compare(&want, &rows, &s.cmd.target());
    if !df.is_empty() { return bad("timing-effect", format!("with these delays the result deviates: {}", report(&df))); }
    // The same bytes as without delays.
    restore(&st);
    let calm = crate::exec::run(&Spec { bin: &bin.1, args: st.argv.clone(), cwd: &st.cwd, stdin: None, env: vec![], cpu: cpu_allow(c), wall: 120.0 })?;
    if let Some(f) = calm.fault() { return bad("crash", f); }
    check_stream(c, &calm.text())?;
    if !same_rows(&rows_of(&st.main)?, &rows) { return bad("timing-dependent", "delays changed the resulting map"); }
    c.rep.add("results_compared_with_undelayed_run", 1);
    Ok(())
}
