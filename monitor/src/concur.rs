//! C27: other users of the maps while a command runs.
use super::*;
use crate::mb::EncOpts;

/// What another program does to a map in one transaction.
type Change = BTreeMap<i64, Option<Vec<u8>>>;

fn change(r: &mut Rng, w: &World, lo: P, hi: P) -> Change {
    let mut m = Change::new();
    let keys: Vec<i64> = w.cells.keys().copied().collect();
    if keys.is_empty() { return m; }
    let part = [0.1, 0.5, 1.0][r.idx(3)];
    let fresh = |r: &mut Rng| -> Option<Vec<u8>> {
        let c = &w.cells[r.pick(&keys)];
        let Some(b) = &c.block else { return Some((*c.raw).clone()) };
        let mut b = (**b).clone();
        b.ts = r.u64() as u32;
        b.p1 = r.bytes(4096);
        let mut t = World::default();
        t.put([0, 0, 0], b, &EncOpts { seed: r.u64(), ..Default::default() });
        let raw = t.cells.into_values().next().unwrap().raw;
        Some((*raw).clone())
    };
    for &k in &keys { if r.chance(part) { let v = if r.chance(0.2) { None } else { fresh(r) }; m.insert(k, v); } }
    for _ in 0..r.idx(4) {
        let q = key_of([r.i32r(lo[0] - 1, hi[0] + 1), r.i32r(lo[1] - 1, hi[1] + 1), r.i32r(lo[2] - 1, hi[2] + 1)]);
        if !w.cells.contains_key(&q) { let v = fresh(r); m.insert(q, v); }
    }
    if m.is_empty() { let k = *r.pick(&keys); let v = fresh(r); m.insert(k, v); }
    m
}
/// The connection if it was committed; none if the database refused it (in use).
fn commit(path: &Path, ch: &Change) -> Result<Option<Db>, String> {
    let db = Db::open(&path.display().to_string())?;
    let busy = |e: String| if e.contains("rc 5:") || e.contains("locked") { Ok(None) } else { Err(e) };
    db.exec("PRAGMA busy_timeout=0").map_err(|e| e.to_string())?;
    if let Err(e) = db.exec("BEGIN IMMEDIATE") { return busy(e); }
    for (k, v) in ch {
        let x = match v {
            None => { let mut q = db.prepare("DELETE FROM blocks WHERE pos=?")?; q.bind_i64(1, *k); q.step() }
            Some(d) => { let mut q = db.prepare("INSERT OR REPLACE INTO blocks (pos,data) VALUES (?,?)")?; q.bind_i64(1, *k); q.bind_blob(2, d); q.step() }
        };
        if let Err(e) = x { return busy(e); }
    }
    match db.exec("COMMIT") { Ok(()) => Ok(Some(db)), Err(e) => { let _ = db.exec("ROLLBACK"); busy(e) } }
}

enum Actor<'a> { Cmd(&'a [String]), Foreign(&'a Path, &'a Change) }

/// The rows after the actors took their turns one after the other.
fn serial(c: &mut Case, st: &Stage, order: &[&Actor]) -> Result<Rows2, Fail> {
    restore(st);
    let bin = c.bin().clone();
    for a in order {
        match a {
            Actor::Foreign(p, ch) => if commit(p, ch)?.is_none() { return Err(Fail::Harness("a lone program was refused".into())); },
            Actor::Cmd(argv) => {
                let run = crate::exec::run(&Spec { bin: &bin.1, args: argv.to_vec(), cwd: &st.cwd, stdin: None, env: vec![], cpu: cpu_allow(c), wall: 120.0 })?;
                c.rep.add("program_runs", 1);
                if let Some(f) = run.fault() { return bad("serial-crash", format!("alone: mapeditr {}: {f}", shell(argv))); }
                if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
                if !run.done() { return bad("serial-not-done", format!("alone: mapeditr {}: {:?}", shell(argv), run.lines().last())); }
            }
        }
    }
    Ok(rows_of(&st.main)?)
}

fn wait_prompt(ch: &mut std::process::Child, po: &Path) -> bool {
    let t0 = Instant::now();
    loop {
        if String::from_utf8_lossy(&fs::read(po).unwrap_or_default()).contains("Proceed?") { return true; }
        if ch.try_wait().map(|x| x.is_some()).unwrap_or(true) || t0.elapsed().as_secs_f64() > 60.0 { return false; }
        std::thread::sleep(Duration::from_millis(1));
    }
}

pub fn isolation(c: &mut Case) -> Res {
    let mode = c.idx % 8;
    let names: [&'static str; 1] = [if mode >= 6 { "overlay" } else { MODIFYING[(c.idx / 8) as usize % MODIFYING.len()] }];
    let many = mode == 2 || mode == 5;
    let mut s = setup(c, &names, if many && (c.idx / 8 + c.idx / 96) % 2 == 0 { Size::Many(400) } else { Size::Small });
    let mut r = c.rng.fork();
    s.dbo.wal = r.chance(0.5);
    s.sdbo.wal = r.chance(0.5);
    let st = stage(c, &s)?;
    // Marked as not to be written to, which is not to say that nobody does.
    if let (Some(p), true) = (&st.src, r.chance(0.3)) {
        use std::os::unix::fs::PermissionsExt;
        fs::set_permissions(p, fs::Permissions::from_mode(0o444)).map_err(|e| e.to_string())?;
        c.rep.add("sources_marked_read_only", 1);
    }
    let bin = c.bin().clone();
    c.rep.add(if s.dbo.wal { "maps_in_wal_mode" } else { "maps_in_rollback_mode" }, 1);
    let target = if mode >= 6 { st.src.clone().unwrap() } else { st.main.clone() };
    let ch = change(&mut r, if mode >= 6 { s.src.as_ref().unwrap() } else { &s.main }, s.lo, s.hi);
    let two = matches!(mode, 3 | 4 | 5);
    let argv2 = {
        let name = *r.pick(&["fill", "replacenodes", "setparam2", "clone", "deleteblocks", "deletemeta", "setmetavar", "deleteobjects", "deletetimers", "replaceininv", "vacuum"]);
        let mut x = command(&mut r, name, &s.p, s.lo, s.hi);
        for _ in 0..8 { if nontrivial(&apply(&x, &s.main, None), &s.main) { break; } x = command(&mut r, name, &s.p, s.lo, s.hi); }
        x.argv(&st.main.display().to_string(), None, true, &mut r)
    };
    let a = Actor::Cmd(&st.argv);
    let b = if two { Actor::Cmd(&argv2) } else { Actor::Foreign(&target, &ch) };
    let other = if two { format!("mapeditr {}", shell(&argv2)) } else { format!("a program which changes {} rows of the {} map", ch.len(), if mode >= 6 { "source" } else { "main" }) };
    c.note(format!("build: {}\ncommand: mapeditr {}\nmeanwhile: {other}", bin.0, shell(&st.argv)));
    // Every serial order, by the real program.
    let pre = serial(c, &st, &[])?;
    let only_a = serial(c, &st, &[&a])?;
    let only_b = serial(c, &st, &[&b])?;
    let ab = serial(c, &st, &[&a, &b])?;
    let ba = serial(c, &st, &[&b, &a])?;
    c.rep.nontrivial = only_a != pre && only_b != pre || mode >= 6;
    if !same_rows(&ab, &ba) { c.rep.add("pairs_whose_order_matters", 1); }
    let rounds = if c.ctx.thorough { 4 } else { 2 };
    for round in 0..rounds {
        restore(&st);
        let wall = Duration::from_micros((r.u64() % 60_000).max(200));
        let question = matches!(mode, 0 | 1 | 3 | 6);
        let budget = [5_000u64, 60_000, 250_000][r.idx(3)];
        let per = (budget / (s.main.cells.len().max(1) as u64 * 6)).max(20);
        let env = |r: &mut Rng, n: usize| { let d = format!("{}:{}:{}:0:1:{}:{}:0:1", r.idx(1 << 30), [100, 500, 1000][r.idx(3)], per * 2, [0, 200, 600][r.idx(3)], per);
            if question { vec![] } else { shim_env(c, &st, &c.dir.join(format!("log{n}.bin")), &[("VSHIM_DELAY", d)]) } };
        let (e1, e2) = (env(&mut r, 1), env(&mut r, 2));
        let cpu = cpu_allow(c);
        let spec = Spec { bin: &bin.1, args: if question { st.noyes.clone() } else { st.argv.clone() }, cwd: &st.cwd, stdin: question.then(Vec::new), env: e1, cpu, wall: 120.0 };
        let t0 = Instant::now();
        // Or it was there before: its change is not to be overlooked.
        let earlier = !two && r.chance(0.25);
        let mut early_db = None;
        if earlier { early_db = commit(&target, &ch)?; if early_db.is_none() { return Err(Fail::Harness("a lone program was refused".into())); } if r.chance(0.2) { early_db = None; } }
        let (mut p1, po, pe) = spawn(&spec, "1")?;
        let mut pipe = p1.stdin.take();
        let mut sec: Option<(std::process::Child, PathBuf, PathBuf)> = None;
        let mut foreign = false;
        // The other program may stay: what it stored in a log then stays there.
        let (stays, mut other_db) = (r.chance(0.5), None);
        let mut run2 = None;
        let spec2 = Spec { bin: &bin.1, args: argv2.clone(), cwd: &st.cwd, stdin: None, env: e2, cpu, wall: 120.0 };
        let finish = |mut x: (std::process::Child, PathBuf, PathBuf)| -> Run { let end = crate::exec::wait(&mut x.0, 120.0); Run { out: fs::read(&x.1).unwrap_or_default(), err: fs::read(&x.2).unwrap_or_default(), end, wall: 0.0 } };
        let mut ended_before = false;
        if question {
            if !wait_prompt(&mut p1, &po) { let _ = p1.kill(); let _ = p1.wait(); return bad("no-question", "no question was asked"); }
            std::thread::sleep(Duration::from_micros(r.u64() % 3000));
            if two { run2 = Some(finish(spawn(&spec2, "2")?)); } else if earlier { foreign = true; } else { other_db = commit(&target, &ch)?; foreign = other_db.is_some(); if !stays { other_db = None; } }
            std::thread::sleep(Duration::from_micros(r.u64() % 3000));
            if let Some(p) = pipe.as_mut() { let _ = p.write_all(b"y\n"); }
            drop(pipe);
        } else if earlier { foreign = true;
        } else if two {
            std::thread::sleep(if r.chance(0.5) { wall / 20 } else { wall });
            sec = Some(spawn(&spec2, "2")?);
        } else {
            std::thread::sleep(wall);
            let mut tries = 0;
            loop {
                ended_before = p1.try_wait().map(|x| x.is_some()).unwrap_or(true);
                if ended_before || tries >= 400 { break; }
                tries += 1;
                if let Some(db) = commit(&target, &ch)? { foreign = true; if stays { other_db = Some(db); } break; }
                std::thread::sleep(Duration::from_micros(300 + r.u64() % 2000));
            }
            c.rep.add("attempts_refused", tries - foreign as u64);
        }
        let run1 = finish((p1, po, pe));
        if let Some(x) = sec { run2 = Some(finish(x)); }
        let took = t0.elapsed().as_secs_f64();
        if earlier { c.rep.add("rounds_after_an_earlier_change", 1); }
        drop(early_db);
        if other_db.take().is_some() { c.rep.add("rounds_in_which_the_other_program_stays", 1); }
        c.rep.add("program_runs", 1 + two as u64);
        c.rep.add("concurrent_rounds", 1);
        c.note(format!("--- round {round}, {took:.3} s; the other change was {}\n{}", if foreign { "committed" } else if two { "a run" } else { "refused" }, run1.describe()));
        if let Some(x) = &run2 { c.note(format!("--- the other run\n{}", x.describe())); }
        for x in [Some(&run1), run2.as_ref()].into_iter().flatten() {
            if x.end == End::Hung { return bad("hang", "a run hangs"); }
            if x.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
            if let End::Signal(n) = x.end { if matches!(n, 4 | 6 | 7 | 8 | 11) { return bad("crash", format!("killed by signal {n}")); } }
        }
        let (d1, d2) = (run1.done(), foreign || run2.as_ref().is_some_and(|x| x.done()));
        c.rep.add(match (d1, d2) { (true, true) => "both_took_effect", (true, false) => "only_the_first_took_effect", (false, true) => "only_the_second_took_effect", _ => "neither_took_effect" }, 1);
        if d1 && d2 && !ended_before && !earlier { c.rep.add("both_took_effect_though_they_met", 1); }
        if earlier && !d1 { return bad("failed-after", format!("the other program was at rest, and yet the command failed: {:?} {}", run1.lines().last(), crate::exec::tail(&run1.etext()))); }
        // A change that was refused, by a program which has gone, is no reason to fail.
        if !two && !foreign && question && !d1 { return bad("failed-alone", format!("the other program was refused, and yet the command failed: {:?} {}", run1.lines().last(), crate::exec::tail(&run1.etext()))); }
        let rows = match rows_of(&st.main) { Ok(x) => x, Err(e) => return bad("corrupt", format!("the map is unusable: {e}")) };
        let allowed: Vec<&Rows2> = match (d1, d2) { (true, true) if earlier => vec![&ba], (true, true) => vec![&ab, &ba], (true, false) => vec![&only_a], (false, true) => vec![&only_b], _ => vec![&pre] };
        if !allowed.iter().any(|x| same_rows(x, &rows)) {
            let j = |x: &Rows2| { let k: BTreeSet<&i64> = rows.keys().chain(x.keys()).collect(); k.into_iter().filter(|k| !same(rows.get(k), x.get(k))).count() };
            return bad("not-serial", format!("{}; the map differs in {:?} rows from the result(s) of doing so one after the other ({} rows from none, {} from the command alone, {} from the other alone)",
                match (d1, d2) { (true, true) => "both changes were reported as made", (true, false) => "only the command reported success", (false, true) => "only the other change was made", _ => "neither reported success" },
                allowed.iter().map(|x| j(x)).collect::<Vec<_>>(), j(&pre), j(&only_a), j(&only_b)));
        }
        if mode >= 6 {
            let want = { let mut w: Rows2 = s.src.as_ref().unwrap().raws().into_iter().map(|(k, v)| (k, (*v).clone())).collect(); if foreign { for (k, v) in &ch { match v { Some(d) => { w.insert(*k, d.clone()); } None => { w.remove(k); } } } } w };
            if rows_of(&target)? != want { return bad("source-changed", "the source map does not hold what its own user stored"); }
        }
        c.rep.distinct.push(mix(c.rep.hash ^ mix(round ^ ((d1 as u64) << 8) ^ ((d2 as u64) << 9) ^ (mode << 10) ^ ((s.dbo.wal as u64) << 14))));
    }
    c.rep.sample = Some(format!("mapeditr {}; meanwhile {other}", shell(&st.argv)).chars().take(500).collect());
    Ok(())
}
