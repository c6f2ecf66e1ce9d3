//! Properties decided by running one or more commands on a generated map and comparing
//! the stored result with the reference model.
use crate::cmd::*;
use crate::damage;
use crate::exec::*;
use crate::gen::*;
use crate::mb::*;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

pub type Rows = BTreeMap<i64, Vec<u8>>;

pub fn db_opts(r: &mut Rng) -> DbOpts {
    DbOpts {
        page_size: [4096, 4096, 1024, 512, 16384, 65536][r.idx(6)],
        auto_vacuum: r.weighted(&[6, 1, 1]) as u8,
        extra: r.chance(0.3), order_seed: r.u64() | 1, holes: if r.chance(0.2) { 1 + r.idx(10) } else { 0 },
        wal: r.chance(0.08), schema: if r.chance(0.3) { r.idx(SCHEMAS.len()) } else { 0 }, utf16: r.chance(0.04), rowids: r.chance(0.12), odd: r.chance(0.4),
    }
}

/// Where a map lives and how the command line refers to it.
pub struct Spot { pub file: PathBuf, pub arg: String }
pub fn spot(r: &mut Rng, cwd: &Path, base: &str) -> Spot {
    let odd = ["", " with space", "\u{e9}\u{1F600}", ".dir", "'q\""][r.weighted(&[10, 1, 1, 3, 1])];
    let d = if r.chance(0.07) {
        // Names resembling subcommands or URIs.
        let n = if base == "world" { ["fill2", "overlay_world", "vacuum.d", "file:world", "file:world%41?mode=ro", "replacenode"][r.idx(6)] } else { ["clone.old", "overlayed", "deleteblock", "file:source", "file:source#?vfs=x", "setparam22"][r.idx(6)] };
        n.to_string()
    } else { format!("{base}{odd}") };
    let dir = cwd.join(&d);
    fs::create_dir_all(&dir).unwrap();
    let fname = if r.chance(0.2) { ["backup.db", "backup", "map.sqlite.bak", "map", "Map.SQLITE", ".sqlite", "a.b.c"][r.weighted(&[6, 1, 1, 1, 1, 1, 1])] } else { "map.sqlite" };
    let file = dir.join(fname);
    if r.chance(0.16) {
        // Other maps nearby that are none of the command's business.
        let decoy = |p: PathBuf| { let mut w = World::default(); w.put_raw([0; 3], b"decoy".to_vec(), "bad"); w.put_raw([1, 2, 3], vec![29; 40], "bad"); let _ = write_db(&p.display().to_string(), &w, &DbOpts::default()); };
        decoy(cwd.join("map.sqlite"));
        if fname != "map.sqlite" { decoy(dir.join("map.sqlite")); }
        for n in [format!("{base}.sqlite"), format!("{d}.sqlite"), format!("{d}.db"), format!("{base}map.sqlite")] { if r.chance(0.5) && !cwd.join(&n).exists() { decoy(cwd.join(n)); } }
        if fname == "map.sqlite" { decoy(dir.join("backup.db")); let _ = fs::create_dir_all(dir.join("map")); decoy(dir.join("map/map.sqlite")); }
    }
    if r.chance(0.1) {
        // By way of a symbolic link, to the directory or the file.
        let to_dir = fname == "map.sqlite" && r.chance(0.5);
        let link = cwd.join(format!("{base}-link"));
        if std::os::unix::fs::symlink(if to_dir { dir.clone() } else { file.clone() }, &link).is_ok() {
            let arg = match r.idx(3) { 0 => format!("{base}-link"), 1 => link.display().to_string(), _ => format!("./{d}/../{base}-link") };
            return Spot { file, arg };
        }
    }
    let arg = match r.idx(4) {
        0 if fname == "map.sqlite" => d,
        1 if fname == "map.sqlite" => format!("{}/", dir.display()),
        2 => file.display().to_string(),
        3 if r.chance(0.3) => format!("{d}/{fname}"),
        _ => format!("./{d}/{fname}"),
    };
    Spot { file, arg }
}

pub struct Executed { pub run: Run, pub after: Rows, pub argv: Vec<String> }

pub struct Job<'a> { pub main: &'a World, pub src: Option<&'a World>, pub cmd: &'a Cmd, pub dbo: DbOpts, pub sdbo: DbOpts }

pub fn cpu_allow(c: &Case) -> u64 { if c.ctx.thorough { 400 } else { 200 } }

/// Write the maps, run the command with -y, read the result. Reports crashes, hangs,
/// missing success, changes to the source map, and changes outside the block table.
pub fn execute(c: &mut Case, j: &Job) -> Result<Executed, Fail> {
    let mut r = c.rng.fork();
    let cwd = c.sub("run");
    fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
    let m = spot(&mut r, &cwd, "world");
    write_db(&m.file.display().to_string(), j.main, &j.dbo)?;
    let s = match j.src { Some(w) => { let s = spot(&mut r, &cwd, "source"); write_db(&s.file.display().to_string(), w, &j.sdbo)?; Some(s) } None => None };
    let argv = j.cmd.argv(&m.arg, s.as_ref().map(|s| s.arg.as_str()), true, &mut r);
    run_on(c, argv, &cwd, &m.file, s.as_ref().map(|s| s.file.clone()))
}

/// Everything near the maps except the map itself and the files SQLite keeps beside a
/// map in WAL mode.
fn other_files(cwd: &Path, file: &Path, sfile: Option<&Path>) -> BTreeMap<String, Vec<u8>> {
    let rel = |p: &Path| p.strip_prefix(cwd).map(|p| p.display().to_string()).unwrap_or_default();
    let mut skip: Vec<String> = vec![rel(file)];
    for f in [Some(file), sfile].into_iter().flatten() { for s in ["-wal", "-shm"] { skip.push(rel(f) + s); } }
    let links: Vec<PathBuf> = fs::read_dir(cwd).into_iter().flatten().flatten().map(|e| e.path()).filter(|p| p.is_symlink()).collect();
    let mut m = crate::args::snapshot(cwd);
    m.retain(|k, _| !skip.contains(k) && !links.iter().any(|l| cwd.join(k).starts_with(l)));
    m
}

pub fn run_on(c: &mut Case, argv: Vec<String>, cwd: &Path, file: &Path, sfile: Option<PathBuf>) -> Result<Executed, Fail> {
    let fstr = file.display().to_string();
    let (before, other_before) = read_db(&fstr)?;
    let odd_before = odd_rows(&fstr)?;
    // Reading the source in WAL mode leaves side files behind; compare bytes taken now.
    let sbefore = match &sfile { Some(s) => Some(fs::read(s).map_err(|e| e.to_string())?), None => None };
    let _ = fs::copy(file, c.sub("main-before.sqlite"));
    let others_before = other_files(cwd, file, sfile.as_deref());
    if let Some(s) = &sfile { let _ = fs::copy(s, c.sub("source-before.sqlite")); }
    let bin = c.bin().clone();
    c.note(format!("build: {}\ncommand: mapeditr {}", bin.0, shell(&argv)));
    let run = crate::exec::run(&Spec { bin: &bin.1, args: argv.clone(), cwd, stdin: None, env: vec![], cpu: cpu_allow(c), wall: 240.0 })?;
    c.rep.add("program_runs", 1);
    c.note(run.describe());
    if let Some(f) = run.fault() { return bad("crash", f); }
    if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
    if !run.done() { return bad("not-done", format!("a valid command did not report success: {:?} {}", run.lines().last(), tail(&run.etext()))); }
    let (after, other_after) = read_db(&fstr).map_err(|e| Fail::Bad(Bad { sig: "unreadable".into(), msg: format!("the map cannot be read afterwards: {e}") }))?;
    let odd_after = odd_rows(&fstr)?;
    for (k, t) in &odd_after { if odd_before.get(k) != Some(t) { return bad("row-type", format!("row {:?} is now stored as {}", pos_of(*k), String::from_utf8_lossy(t))); } }
    // The source's copy of a row that looks the same may have been stored over it.
    if sfile.is_none() {
        for (k, t) in &odd_before { if after.contains_key(k) && after.get(k) == before.get(k) && !odd_after.contains_key(k) { return bad("row-type", format!("row {:?}, stored as {}, was stored anew", pos_of(*k), String::from_utf8_lossy(t))); } }
    }
    c.rep.add("rows_null_or_text", odd_before.len() as u64);
    if other_before != other_after { return bad("other-tables", format!("contents outside the block table changed:\n{other_before:?}\n{other_after:?}")); }
    if let (Some(s), Some(b)) = (&sfile, &sbefore) {
        if fs::read(s).map_err(|e| e.to_string())? != *b { return bad("source-changed", "the source map's file changed"); }
    }
    let _ = fs::copy(file, c.sub("main-after.sqlite"));
    if let Some(d) = crate::args::snapshot_diff(&others_before, &other_files(cwd, file, sfile.as_deref())) { return bad("other-file", format!("a file that is not the map changed: {d}")); }
    c.rep.add("other_files_watched", others_before.len() as u64);
    Ok(Executed { run, after, argv })
}

pub fn report(diffs: &[Diff]) -> String {
    let mut s = format!("{} deviation(s) from the documented effect:\n", diffs.len());
    for d in diffs.iter().take(12) { s += &format!("  block {:?} {}: {}\n", pos_of(d.key), d.kind, d.detail); }
    s
}

pub fn world_hash(w: &World) -> u64 { let mut h = 0; for (k, c) in &w.cells { h = mix(h ^ *k as u64 ^ hash_bytes(&c.raw)); } h }

pub fn count_stats(c: &mut Case, o: &Outcome, w: &World, cmd: &Cmd) {
    for (k, v) in &o.stats { c.rep.add(k, *v); }
    c.rep.add(&format!("cmd_{}", cmd.name), 1);
    if cmd.invert { c.rep.add("inverted_areas", 1); }
    if cmd.p1.is_none() && cmd.name != "vacuum" { c.rep.add("whole_map_runs", 1); }
    for x in w.cells.values() { if let Some(b) = &x.block { c.rep.add(&format!("blocks_v{}", b.ver), 1); } else { c.rep.add("blocks_damaged", 1); } }
}

/// Does the outcome contain both something edited and something to be kept?
pub fn nontrivial(o: &Outcome, w: &World) -> bool {
    let changed = o.rows.iter().any(|(k, r)| {
        if r.absent && r.any.is_empty() { return w.cells.contains_key(k); }
        match r.any.first() {
            Some(Exp::Logical(b)) => w.cells.get(k).and_then(|c| c.block.as_ref()).is_none_or(|x| **x != **b),
            Some(Exp::Bytes(b)) => w.cells.get(k).is_none_or(|x| x.raw != *b),
            None => false,
        }
    });
    changed && !w.cells.is_empty()
}

struct Profile { cmds: &'static [&'static str], rich: Rich, max: [i32; 3], density: f64, damaged: f64 }

fn profile(prop: &str, r: &mut Rng) -> Profile {
    let d = |cmds| Profile { cmds, rich: RICH, max: [3, 3, 3], density: 0.85, damaged: 0.15 };
    match prop {
        "C01" => Profile { cmds: &["clone", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2"],
            rich: Rich { heavy: 0.5, meta: 0.8, objs: 0.7, timers: 0.7, ..RICH }, max: [2, 2, 2], density: 0.95, damaged: 0.0 },
        "C03" => Profile { cmds: &["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2", "vacuum"],
            rich: Rich { heavy: 0.0, stray: 0.1, ..RICH }, max: [5, 4, 4], density: 0.6, damaged: 0.3 },
        "C04" => d(&["replacenodes"]),
        "C05" => Profile { rich: Rich { ungen: 0.2, ..RICH }, ..d(&["fill"]) },
        "C06" => d(&["setparam2"]),
        "C07" => Profile { rich: Rich { meta: 0.95, objs: 0.2, timers: 0.2, heavy: 0.05, ..RICH }, ..d(&["deletemeta"]) },
        "C08" => Profile { rich: Rich { meta: 0.95, objs: 0.2, timers: 0.2, heavy: 0.05, ..RICH }, ..d(&["setmetavar"]) },
        "C09" => Profile { rich: Rich { objs: 0.95, meta: 0.2, timers: 0.2, heavy: 0.05, stray: 0.15, ..RICH }, ..d(&["deleteobjects"]) },
        "C10" => Profile { rich: Rich { timers: 0.95, meta: 0.2, objs: 0.2, heavy: 0.05, ..RICH }, ..d(&["deletetimers"]) },
        "C11" => Profile { rich: Rich { meta: 0.95, objs: 0.2, timers: 0.2, heavy: 0.05, ..RICH }, ..d(&["replaceininv"]) },
        "C12" => Profile { rich: Rich { ungen: 0.08, ..RICH }, max: [4, 3, 3], ..d(&["clone"]) },
        "C13" | "C14" => Profile { rich: Rich { ungen: 0.12, ..RICH }, density: 0.7, ..d(&["overlay"]) },
        "C15" => Profile { rich: Rich { meta: 0.05, objs: 0.05, timers: 0.05, heavy: 0.0, ..RICH }, max: [6, 5, 5], density: 0.7, damaged: 1.0, ..d(&["deleteblocks"]) },
        "C18" => Profile { cmds: &ALL, damaged: 1.0, ..d(&ALL) },
        _ => { let _ = r; d(&ALL) }
    }
}

pub fn damage_world(r: &mut Rng, w: &mut World, p: &Pal, share: f64, gray: bool, bp_rich: &Rich) -> Vec<&'static str> {
    let keys: Vec<i64> = w.cells.keys().copied().collect();
    let mut whats = vec![];
    // In some worlds all damage is of one kind that only shows when the content is used.
    let focus = r.chance(0.3).then(|| *r.pick(&[19usize, 19, 20, 20, 22, 23]));
    for k in keys {
        if !r.chance(share) { continue; }
        let pos = pos_of(k);
        let b = block(r, p, pos, bp_rich);
        let kind = if let Some(f) = focus { f } else if gray { r.idx(damage::KINDS) } else { r.idx(27) };
        let (raw, mut tag, what) = damage::damage(r, p, &b, kind);
        if tag == "gray" && !gray { continue; }
        if tag == "bad" && decode(&raw).is_ok() { tag = "gray"; }
        if tag == "gray" { if let Ok(b) = decode(&raw) { let e = Cell { raw: raw.into(), block: Some(b.into()), tag: "good" }; w.cells.insert(k, e); continue; } }
        w.put_raw(pos, raw, tag);
        whats.push(what);
    }
    whats
}

/// A map of well over 1024 blocks with cheap, mutually different blocks.
pub fn big_world(r: &mut Rng, p: &Pal, n: i32, rich: &Rich) -> (World, P, P) {
    if (1100..=4000).contains(&n) && r.chance(0.5) {
        // Two or three layers of more than 1024 blocks each, in any orientation.
        let mut d = if r.chance(0.6) { [1030 + r.i32r(0, (n - 1000).min(300)), 1, 2 + (n > 2000) as i32] } else { [26 + r.i32r(0, 8), 40 + r.i32r(0, 4), 2 + (n > 2000) as i32] };
        r.shuffle(&mut d);
        return big_box(r, p, d, rich);
    }
    let (sx, sy, sz) = match r.idx(6) { 0 => (n, 1, 1), 1 => (1, n, 1), 2 => (1, 1, n), 3 => (n / 60, 60, 1), 4 => (1, n / 50, 50), _ => { let c = (n as f64).cbrt().ceil() as i32; (c, c, c) } };
    big_box(r, p, [sx.min(3800), sy.min(3800), sz.min(3800)], rich)
}
fn big_box(r: &mut Rng, p: &Pal, [sx, sy, sz]: [i32; 3], rich: &Rich) -> (World, P, P) {
    let lo = [-r.i32r(0, sx.min(1900)), -r.i32r(0, sy.min(1900)), -r.i32r(0, sz.min(1900))];
    let hi = [lo[0] + sx - 1, lo[1] + sy - 1, lo[2] + sz - 1];
    let mut w = World::default();
    let tmpl: Vec<Block> = (0..6).map(|_| {
        let mut b = block(r, p, [0; 3], &Rich { heavy: 0.0, many: 0.0, wild_pos: false, meta: if rich.meta > 0.9 { 0.9 } else { 0.3 }, objs: if rich.objs > 0.9 { 0.9 } else { 0.0 }, timers: if rich.timers > 0.9 { 0.9 } else { 0.2 }, ungen: 0.0, ..*rich });
        if r.chance(0.7) { let v = r.u64() as u8; b.p1 = vec![v; 4096]; b.p2 = vec![v; 4096]; }
        b
    }).collect();
    let mut i = 0u32;
    for z in lo[2]..=hi[2] { for y in lo[1]..=hi[1] { for x in lo[0]..=hi[0] {
        if r.chance(0.01) { continue; }
        let mut b = r.pick(&tmpl).clone();
        b.ts = i;
        i += 1;
        b.nodes[0] = intern(format!("id:n{}", i % 997).as_bytes());
        b.nodes[4095] = b.nodes[0];
        b.p2[7] = i as u8;
        b.p2[8] = (i >> 8) as u8;
        for o in &mut b.objs { for (i, v) in [x, y, z].into_iter().enumerate() { o.pos[i] += v * 160_000; } }
        if r.chance(0.003) { b.flags |= 8; }
        w.put([x, y, z], b, &EncOpts { seed: i as u64, id_mode: r.idx(3) as u8, ..Default::default() });
    } } }
    (w, lo, hi)
}

/// A map of more than 65536 blocks, of which many are equal.
pub fn huge_world(r: &mut Rng, p: &Pal, rich: &Rich) -> (World, P, P) {
    let mut d = [[42, 42, 42], [272, 272, 1], [3700, 20, 1], [900, 9, 9], [1100, 67, 1]][r.idx(5)];
    r.shuffle(&mut d);
    let lo = d.map(|n| if n > 3600 { -1900 } else { -r.i32r(0, n.min(1900)) });
    let hi = [lo[0] + d[0] - 1, lo[1] + d[1] - 1, lo[2] + d[2] - 1];
    let rich = Rich { heavy: 0.0, many: 0.0, wild_pos: false, ungen: 0.0, vers: &[29, 29, 29, 29, 29, 28, 25, 27], ..*rich };
    let tmpl: Vec<Cell> = (0..300).map(|i| {
        let mut b = block(r, p, [0; 3], &rich);
        if i >= 10 {
            let n = b.nodes[r.idx(4096)];
            let few: Vec<_> = (0..6).map(|_| { let j = r.idx(4096); (j, b.nodes[j]) }).collect();
            b.nodes.fill(n);
            for (j, x) in few { b.nodes[j] = x; }
            if r.chance(0.5) { b.nodes[r.idx(4096)] = p.target_id; }
            let v = r.u64() as u8;
            b.p1 = vec![v; 4096];
            b.p2 = vec![v ^ 0x55; 4096];
        }
        if i > 0 && !r.chance(rich.objs) { b.objs.clear(); }
        if i % 50 == 7 { b.flags |= 8; }
        b.ts = i;
        let mut w = World::default();
        w.put([0; 3], b, &EncOpts { seed: i as u64, id_mode: r.idx(3) as u8, ..Default::default() });
        w.cells.remove(&0).unwrap()
    }).collect();
    let mut w = World::default();
    for z in lo[2]..=hi[2] { for y in lo[1]..=hi[1] { for x in lo[0]..=hi[0] {
        if r.chance(0.002) { continue; }
        let t = r.pick(&tmpl);
        let b = t.block.as_ref().unwrap();
        if b.objs.is_empty() { w.cells.insert(key_of([x, y, z]), t.clone()); continue; }
        let mut b = (**b).clone();
        for o in &mut b.objs { for (i, v) in [x, y, z].into_iter().enumerate() { o.pos[i] += v * 160_000; } }
        w.put([x, y, z], b, &EncOpts::default());
    } } }
    (w, lo, hi)
}

pub fn source_world(r: &mut Rng, p: &Pal, lo: P, hi: P, pr: f64, rich: Rich) -> World {
    // Overlapping the main map's box, but not exactly.
    let mut a = lo;
    let mut b = hi;
    for i in 0..3 { a[i] = (a[i] + r.i32r(-1, 1)).clamp(-1937, 1937); b[i] = (b[i] + r.i32r(-1, 1)).clamp(a[i], 1937); if b[i] - a[i] > 5 { b[i] = a[i] + 5; } }
    world(r, p, a, b, &WorldCfg { max: [9; 3], density: pr, rich })
}

fn accept(prop: &str, d: &Diff) -> bool {
    match prop {
        "C01" => !matches!(d.kind, "row-missing" | "row-extra" | "bytes"),
        "C03" => matches!(d.kind, "row-missing" | "row-extra" | "bytes") || (!d.inside && matches!(d.kind, "nodes" | "param1" | "param2" | "meta" | "objects" | "timers")),
        _ => true,
    }
}

/// C01, C03 to C15, C18: one command against the model.
pub fn one_command(c: &mut Case) -> Res {
    let prop = c.ctx.prop.clone();
    let mut r = c.rng.clone();
    let pf = profile(&prop, &mut r);
    let p = Pal::new(&mut r);
    let name = pf.cmds[(c.idx + c.idx / 96) as usize % pf.cmds.len()];
    let huge = prop != "C01" && prop != "C18" && c.idx % if c.ctx.thorough { 2200 } else { 110_000 } == if prop == "C03" { 5 } else { 3 };
    let big = huge || match prop.as_str() { "C12" | "C14" => c.idx % 16 == 5, "C01" | "C18" => false, _ => c.idx % 96 == 5 };
    let (mut main, lo, hi);
    let mut rich = pf.rich;
    if huge {
        (main, lo, hi) = huge_world(&mut r, &p, &Rich { objs: if prop == "C09" { 0.3 } else { 0.02 }, meta: if rich.meta > 0.9 { 0.5 } else { 0.05 }, timers: if rich.timers > 0.9 { 0.5 } else { 0.05 }, ..rich });
        c.rep.add("maps_over_65536_blocks", 1);
    } else if big {
        let n = if c.ctx.thorough { [1100, 1300, 2100, 3500][r.idx(4)] } else { [1100, 1300, 2100][r.idx(3)] };
        (main, lo, hi) = big_world(&mut r, &p, n, &rich);
    } else {
        let (mut l, mut h) = place(&mut r, pf.max);
        if !matches!(name, "clone" | "overlay") && r.chance(0.04) {
            // Blocks beyond the map's limits, as far as they can be stored.
            for i in 0..3 { if r.chance(0.5) { let s = h[i] - l[i]; l[i] = [-2048, 2047 - s, -1938 - s + r.i32r(0, 1), 1938 - r.i32r(0, s), r.i32r(1938, 2047 - s)][r.idx(5)]; h[i] = l[i] + s; } }
            c.rep.add("maps_beyond_the_limits", 1);
        }
        (lo, hi) = (l, h);
        if prop == "C09" && r.chance(0.15) { rich.wild_pos = true; }
        let density = if r.chance(0.2) { 1.0 } else { pf.density };
        main = world(&mut r, &p, lo, hi, &WorldCfg { max: pf.max, density, rich });
    }
    let mut beyond = vec![];
    if !big && matches!(name, "clone" | "overlay") && r.chance(0.08) {
        // Some blocks beyond the map's limits, as far as they can be stored.
        for _ in 0..1 + r.idx(4) {
            let mut q = [r.i32r(lo[0], hi[0]), r.i32r(lo[1], hi[1]), r.i32r(lo[2], hi[2])];
            for _ in 0..1 + r.idx(2) { q[r.idx(3)] = [1938, -1938, 2047, -2048, 1940, -2000][r.idx(6)]; }
            beyond.push(q);
        }
        for &q in &beyond { if r.chance(0.6) { let (b, o) = (block(&mut r, &p, q, &rich), enc(&mut r, &p)); main.put(q, b, &o); } }
        c.rep.add("maps_beyond_the_limits", 1);
    }
    let draw = |r: &mut Rng| {
        let mut cmd = command(r, name, &p, lo, hi);
        if rich.wild_pos { cmd.p1 = None; cmd.p2 = None; cmd.invert = false; }
        if name == "overlay" {
            match prop.as_str() {
                "C13" => { cmd.offset = if r.chance(0.15) { Some([0, 0, 0]) } else { None }; }
                "C14" => { cmd.invert = false; let mut o = offset(r, lo, hi); if o == [0, 0, 0] { o = [0, -1, 0]; } cmd.offset = Some(o); }
                _ => {}
            }
        }
        if matches!(name, "clone" | "overlay") && cmd.offset.is_some() { sane(&mut cmd); }
        cmd
    };
    let mut cmd = draw(&mut r);
    let mut src = None;
    if name == "overlay" {
        src = Some(if big { let mut s = World::default(); for (k, x) in &main.cells { if r.chance(0.8) { s.cells.insert(*k, x.clone()); } }
                let keys: Vec<i64> = s.cells.keys().copied().collect();
                for k in keys { if r.chance(0.3) { let mut b = (**s.cells[&k].block.as_ref().unwrap()).clone(); b.p1 = vec![(k & 255) as u8; 4096]; b.ts ^= 0xFFFF; s.put(pos_of(k), b, &EncOpts::default()); } }
                s }
            else { source_world(&mut r, &p, lo, hi, pf.density, pf.rich) });
        if !big && r.chance(0.25) {
            // Another version of the same map: blocks which differ a little, or not at all.
            c.rep.add("sources_much_like_the_map", 1);
            let s = src.as_mut().unwrap();
            let all: Vec<i64> = main.cells.keys().copied().collect();
            for k in &all {
                if !r.chance(0.8) { continue; }
                let x = main.cells[k].clone();
                let Some(b) = &x.block else { s.cells.insert(*k, x); continue };
                let mut b = (**b).clone();
                let o = EncOpts { seed: r.u64(), ..Default::default() };
                // The same to the byte but for that, half of the time.
                if r.chance(0.5) { main.put(pos_of(*k), b.clone(), &o); }
                let at = [0, 4095, r.idx(4096)][r.idx(3)];
                match r.idx(8) {
                    0 => { if let Some(t) = b.timers.last_mut() { t.elapsed ^= 1 << r.idx(20); } else { b.timers.push(Timer { pos: at as u16, timeout: 1000, elapsed: r.u64() as u32 >> 8 }); } }
                    1 => b.ts ^= 1 << r.idx(32),
                    2 => b.p1[at] ^= 1 << r.idx(8),
                    3 => b.p2[at] ^= 1 << r.idx(8),
                    4 => { let n = b.nodes[(at + 1) % 4096].clone(); b.nodes[at] = n; }
                    5 => { b.objs.pop(); }
                    6 => { b.meta.clear(); }
                    _ => {}
                }
                s.put(pos_of(*k), b, &o);
            }
        }
        for &q in &beyond { if r.chance(0.8) { let (b, o) = (block(&mut r, &p, q, &rich), enc(&mut r, &p)); src.as_mut().unwrap().put(q, b, &o); } }
    }
    if big {
        // Areas that select nearly everything, so that the caches overflow.
        let m = |v: i32, e: i32| (v * 16 + e).clamp(-31000, 31000);
        if huge && !matches!(name, "fill" | "deleteblocks" | "clone") && r.chance(0.4) && cmd.node.is_some() { cmd.p1 = None; cmd.p2 = None; }
        if huge { cmd.invert = false; }
        let j = |r: &mut Rng| r.i32r(0, 9);
        if cmd.p1.is_some() && (huge || r.chance(0.7)) {
            cmd.p1 = Some([m(lo[0], j(&mut r)), m(lo[1], j(&mut r)), m(lo[2], j(&mut r))]);
            cmd.p2 = Some([m(hi[0], 15 - j(&mut r)), m(hi[1], 15 - j(&mut r)), m(hi[2], 15 - j(&mut r))]);
        }
        if huge && name == "deleteblocks" {
            // Outwards, except along one axis.
            let e = |v: i32| v.clamp(-31000, 31000);
            let (mut a, mut b) = ([0; 3], [0; 3]);
            let ax = (0..3).max_by_key(|&i| hi[i] - lo[i]).unwrap();
            for i in 0..3 { let o = if i == ax { 1 } else { -1 }; a[i] = e(lo[i] * 16 + o * j(&mut r)); b[i] = e(hi[i] * 16 + 15 - o * j(&mut r)); }
            (cmd.p1, cmd.p2) = (Some(a), Some(b));
        }
        if matches!(prop.as_str(), "C12" | "C14") {
            // Shift along the long axis mostly.
            let ax = (0..3).max_by_key(|&i| hi[i] - lo[i]).unwrap();
            let mut o = [0; 3];
            o[ax] = [16, -16, 1, -1, 7, -23, 48, -160, 16 * 70, -16 * 70, 16 * 1030, -16 * 1030][r.idx(12)];
            if r.chance(0.3) { o[r.idx(3)] = [1, -1, 16, 3][r.idx(4)]; }
            if r.chance(0.5) { for (i, v) in o.iter_mut().enumerate() { if hi[i] - lo[i] < 4 || r.chance(0.4) { *v = [16, -16, 5, -5, 12, -27, 0][r.idx(7)]; } } if o == [0; 3] { o[1] = -16; } }
            // Layers of more than 1024 blocks: from one to the next, with or without a shift within the layer.
            let d = |i: usize| hi[i] - lo[i] + 1;
            if let Some(ly) = (0..3).find(|&i| (2..=3).contains(&d(i)) && d((i + 1) % 3) * d((i + 2) % 3) > 1024) {
                if r.chance(0.8) { for (i, v) in o.iter_mut().enumerate() { *v = if i != ly && r.chance(0.4) { 0 } else { [16, -16, 5, -5, 12, -27, 16, -16][r.idx(8)] }; } c.rep.add("layered_maps", 1); }
            }
            cmd.offset = Some(o);
        }
        c.rep.add("maps_over_1024_blocks", 1);
        // Some of the names used by the map rather than any.
        if let Some(x) = main.cells.values().next().and_then(|x| x.block.as_ref()) {
            let n = String::from_utf8_lossy(&crate::mb::name_bytes(x.nodes[4000])).into_owned();
            if r.chance(0.5) && valid_name(&n) && cmd.node.is_some() && cmd.new_node.as_ref() != Some(&n) { cmd.node = Some(n); }
        }
    }
    if matches!(name, "clone" | "overlay") && cmd.offset.is_some() {
        sane(&mut cmd);
    }
    // Commands without any effect have their use, but not too many of them.
    if !big { for _ in 0..6 { if r.chance(0.2) || nontrivial(&apply(&cmd, &main, src.as_ref()), &main) { break; } cmd = draw(&mut r); } }
    if r.chance(pf.damaged) && !main.cells.is_empty() {
        let share = if big { 0.003 } else if prop == "C18" { [0.15, 0.4, 0.8][r.idx(3)] } else { 0.15 };
        let gray = prop == "C18" && !matches!(name, "clone" | "overlay");
        let mut whats = damage_world(&mut r, &mut main, &p, share, gray, &Rich { heavy: 0.0, ..pf.rich });
        if let Some(s) = &mut src { if !big { whats.extend(damage_world(&mut r, s, &p, share, false, &Rich { heavy: 0.0, ..pf.rich })); } }
        for x in &whats { c.rep.add(&format!("damage: {x}"), 1); }
        if !whats.is_empty() { c.note(format!("damaged blocks: {whats:?}")); }
    }
    let out = apply(&cmd, &main, src.as_ref());
    count_stats(c, &out, &main, &cmd);
    c.rep.nontrivial = if prop == "C18" { main.cells.values().any(|x| x.block.is_none()) || src.as_ref().is_some_and(|s| s.cells.values().any(|x| x.block.is_none())) } else { nontrivial(&out, &main) };
    c.rep.hash = world_hash(&main) ^ src.as_ref().map_or(0, world_hash) ^ strhash(&format!("{cmd:?}"));
    let (dbo, sdbo) = (db_opts(&mut r), DbOpts { wal: false, ..db_opts(&mut r) });
    c.rng = r;
    let ex = execute(c, &Job { main: &main, src: src.as_ref(), cmd: &cmd, dbo, sdbo })?;
    c.rep.sample = Some(format!("{} stored blocks; mapeditr {}", main.cells.len(), shell(&ex.argv)).chars().take(600).collect());
    let d: Vec<Diff> = compare(&out, &ex.after, &cmd.target()).into_iter().filter(|d| accept(&prop, d)).collect();
    if !d.is_empty() { return bad(&format!("{}/{}", cmd.name, d[0].kind), report(&d)); }
    if prop == "C18" { check_skipped(&ex.run, &out)?; }
    c.rep.add("rows_compared", ex.after.len() as u64);
    Ok(())
}

/// Value of an abbreviated number such as "999", "33.9k".
fn big_num(s: &str) -> Option<f64> {
    let (n, u) = match s.chars().last()? { 'k' => (&s[..s.len() - 1], 1e3), 'M' => (&s[..s.len() - 1], 1e6), 'B' => (&s[..s.len() - 1], 1e9), 'T' => (&s[..s.len() - 1], 1e12), _ => (s, 1.0) };
    n.parse::<f64>().ok().map(|v| v * u)
}
fn numbers(l: &str) -> Vec<String> {
    l.split(|c: char| c.is_whitespace() || c == ',').map(|w| w.trim_end_matches(['.', ':', ')', ';'])).filter(|w| w.starts_with(|c: char| c.is_ascii_digit()) && big_num(w).is_some()).map(str::to_string).collect()
}
fn matches_num(shown: &str, actual: u64) -> bool {
    let v = big_num(shown).unwrap_or(-1.0);
    if actual < 1000 { v == actual as f64 } else { (v - actual as f64).abs() <= 0.006 * actual as f64 }
}
fn check_skipped(run: &Run, o: &Outcome) -> Res {
    let l: Vec<String> = run.lines().into_iter().filter(|l| l.contains("Skipped")).collect();
    let n = match l.first() { None => 0.0, Some(l) => numbers(l).first().and_then(|s| big_num(s)).unwrap_or(-1.0) };
    let (lo, hi) = (o.skipped.0 as f64, o.skipped.1 as f64);
    if n < lo * 0.994 || n > hi * 1.006 { return bad("skipped-count", format!("skipped blocks reported: {n}, examined and undecodable: between {lo} and {hi}")); }
    Ok(())
}

/// C23: the numbers shown.
pub fn counts(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    const CMDS: [&str; 11] = ["deletemeta", "deleteobjects", "deletetimers", "fill", "replaceininv", "replacenodes", "setmetavar", "setparam2", "deleteblocks", "clone", "overlay"];
    let name = CMDS[(c.idx + c.idx / 88) as usize % CMDS.len()];
    let many = c.idx % 33 < 11 && matches!(name, "fill" | "replacenodes" | "setparam2" | "deleteblocks");
    let max = if many { [6, 5, 5] } else { [3, 2, 3] };
    let (lo, hi) = place(&mut r, max);
    let rich = Rich { heavy: 0.03, ungen: 0.05, stray: 0.05, meta: 0.7, objs: 0.7, timers: 0.7, ..RICH };
    let huge = c.idx % if c.ctx.thorough { 2000 } else { 100_000 } == 3;
    let (mut lo, mut hi) = (lo, hi);
    let mut main = if huge { let x = huge_world(&mut r, &p, &Rich { objs: 0.02, ..rich }); (lo, hi) = (x.1, x.2); x.0 } else if c.idx % 88 == 9 { let x = big_world(&mut r, &p, 1500, &rich); (lo, hi) = (x.1, x.2); x.0 } else { world(&mut r, &p, lo, hi, &WorldCfg { max, density: 0.9, rich }) };
    // Sometimes every block is damaged, so that the number of skipped ones is known exactly.
    let all = r.chance(0.15);
    if all || r.chance(0.4) { damage_world(&mut r, &mut main, &p, if all { 1.0 } else { 0.25 }, false, &Rich { heavy: 0.0, ..rich }); }
    let mut cmd = command(&mut r, name, &p, lo, hi);
    if huge { c.rep.add("maps_over_65536_blocks", 1); cmd.invert = false; cmd.p1 = Some(lo.map(|v| v * 16 + r.i32r(0, 3))); cmd.p2 = Some(hi.map(|v| v * 16 + 12 + r.i32r(0, 3))); }
    if matches!(name, "clone") || (name == "overlay" && cmd.offset.is_some()) { cmd.offset = Some([r.i32r(-20, 20), r.i32r(-20, 20), r.i32r(-20, 20)]); sane(&mut cmd); }
    let src = if name == "overlay" { let mut s = source_world(&mut r, &p, lo, hi, 0.8, rich); let both = all && r.chance(0.6); if both || r.chance(0.5) { damage_world(&mut r, &mut s, &p, if both { 1.0 } else { 0.3 }, false, &RICH); } Some(s) } else { None };
    let out = apply(&cmd, &main, src.as_ref());
    count_stats(c, &out, &main, &cmd);
    c.rep.hash = world_hash(&main) ^ strhash(&format!("{cmd:?}"));
    c.rep.nontrivial = out.counts.iter().any(|&n| n > 0) || out.skipped.1 > 0 || out.selected > 0;
    let (dbo, sdbo) = (db_opts(&mut r), DbOpts::default());
    c.rng = r;
    let ex = execute(c, &Job { main: &main, src: src.as_ref(), cmd: &cmd, dbo, sdbo })?;
    c.rep.sample = Some(format!("true counts {:?}, skipped {:?}; mapeditr {}; shown: {:?}", out.counts, out.skipped, shell(&ex.argv), ex.run.lines().last()).chars().take(700).collect());
    let lines = ex.run.lines();
    if !out.counts.is_empty() {
        let nums: Vec<String> = lines.iter().filter(|l| l.starts_with("info:") && !l.contains("Skipped") && !l.contains("Committing") && !l.contains("Done.")).flat_map(|l| numbers(l)).collect();
        // Not-generated blocks may or may not be edited; leave such maps to the other checks.
        let fuzzy = main.cells.values().any(|x| x.block.as_ref().is_some_and(|b| !b.generated())) && name != "fill";
        if !fuzzy {
            if nums.len() != out.counts.len() || nums.iter().zip(&out.counts).any(|(s, &a)| !matches_num(s, a)) {
                return bad(&format!("{name}/count"), format!("the summary shows {nums:?}, actually {:?}", out.counts));
            }
            c.rep.add("summaries_checked", 1);
        }
    }
    // Source blocks copied unread, or destinations rejected by a header check, may or may not count.
    check_skipped(&ex.run, &out)?;
    if out.skipped.0 > 0 { c.rep.add("skip_counts_checked", 1); }
    let prog: Vec<f64> = lines.iter().filter(|l| l.starts_with('[') && l.contains('%')).filter_map(|l| l.split(']').nth(1)?.trim().split('%').next()?.trim().parse().ok()).collect();
    if out.selected > 0 {
        if prog.last() != Some(&100.0) { return bad(&format!("{name}/progress"), format!("last progress display: {:?}", prog.last())); }
        c.rep.add("progress_checked", 1);
    }
    if prog.iter().any(|&x| !(0.0..=100.0).contains(&x)) || prog.windows(2).any(|w| w[1] < w[0]) { return bad(&format!("{name}/progress"), format!("progress displays: {prog:?}")); }
    if name == "deleteblocks" {
        let del = main.cells.len() as u64 - ex.after.len() as u64;
        let found: Vec<f64> = lines.iter().filter(|l| l.contains("found")).flat_map(|l| numbers(l)).filter_map(|s| big_num(&s)).collect();
        if found.last() != Some(&(del as f64)) { return bad("deleteblocks/found", format!("{:?} blocks reported as found, {del} deleted", found.last())); }
        c.rep.add("found_counts_checked", 1);
    }
    Ok(())
}

/// C02: histories.
pub fn history(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let mut p = Pal::new(&mut r);
    let max = [3, 2, 2];
    let (lo, hi) = place(&mut r, max);
    let rich = Rich { heavy: 0.03, ungen: 0.03, stray: 0.05, ..RICH };
    let mut main = world(&mut r, &p, lo, hi, &WorldCfg { max, density: 0.9, rich });
    let src = source_world(&mut r, &p, lo, hi, 0.8, rich);
    let steps = if c.ctx.thorough { 4 + r.idx(30) } else { 3 + r.idx(8) };
    let cwd = c.sub("run");
    fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
    let m = spot(&mut r, &cwd, "world");
    let s = spot(&mut r, &cwd, "source");
    write_db(&m.file.display().to_string(), &main, &db_opts(&mut r))?;
    write_db(&s.file.display().to_string(), &src, &DbOpts::default())?;
    c.rep.hash = world_hash(&main) ^ world_hash(&src);
    let mut edits = 0u64;
    for step in 0..steps {
        let name = if r.chance(0.3) { ["clone", "overlay", "replacenodes", "fill"][r.idx(4)] } else { ALL[r.idx(12)] };
        let mut cmd = command(&mut r, name, &p, lo, hi);
        if name == "deleteblocks" && r.chance(0.7) { continue; }
        if cmd.offset.is_some() && name != "overlay" || cmd.has_offset() {
            cmd.offset = Some([r.i32r(-40, 40), r.i32r(-40, 40), r.i32r(-40, 40)]);
            sane(&mut cmd);
        }
        let out = apply(&cmd, &main, if name == "overlay" { Some(&src) } else { None });
        count_stats(c, &out, &World::default(), &cmd);
        if nontrivial(&out, &main) { edits += 1; }
        c.rep.hash = mix(c.rep.hash ^ strhash(&format!("{cmd:?}")));
        let argv = cmd.argv(&m.arg, Some(&s.arg), true, &mut r);
        c.note(format!("step {step}"));
        let ex = run_on(c, argv, &cwd, &m.file, if name == "overlay" { Some(s.file.clone()) } else { None })?;
        for (k, raw) in &ex.after {
            if let Err(e) = decode(raw) { return bad(&format!("{name}/malformed"), format!("after step {step} block {:?} is malformed: {e}", pos_of(*k))); }
        }
        c.rep.add("blocks_validated", ex.after.len() as u64);
        let d = compare(&out, &ex.after, &cmd.target());
        if !d.is_empty() { return bad(&format!("{name}/{}", d[0].kind), format!("step {step}: {}", report(&d))); }
        c.rep.add("steps", 1);
        main = World::from_raws(&ex.after);
        // Let later commands act on what earlier ones created.
        if r.chance(0.4) { std::mem::swap(&mut p.target, &mut p.newn); std::mem::swap(&mut p.target_id, &mut p.newn_id); }
        if r.chance(0.3) && valid_name(&p.new_item) { let i = p.item.clone(); p.item = p.new_item.clone(); p.new_item = i; if p.item == p.new_item { p.new_item = "zz:zz".into(); } }
    }
    c.rep.nontrivial = edits >= 2;
    c.rep.sample = Some(c.log.lines().filter(|l| l.starts_with("command")).collect::<Vec<_>>().join(" ; ").chars().take(700).collect());
    Ok(())
}

/// C16: vacuum.
pub fn vacuum(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    let (lo, hi) = place(&mut r, [4, 4, 4]);
    let heavy = if r.chance(0.3) { 0.2 } else { 0.0 };
    let mut main = if c.idx % 40 == 3 { big_world(&mut r, &p, 1500, &RICH).0 } else { world(&mut r, &p, lo, hi, &WorldCfg { max: [4; 3], density: 0.8, rich: Rich { heavy, ..RICH } }) };
    if r.chance(0.1) { main.cells.clear(); }
    if r.chance(0.5) { damage_world(&mut r, &mut main, &p, 0.3, true, &RICH); }
    let mut dbo = db_opts(&mut r);
    dbo.holes = [0, 3, 50, 400][r.idx(4)];
    dbo.wal = r.chance(0.15);
    let cwd = c.sub("run");
    fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
    let m = spot(&mut r, &cwd, "world");
    let f = m.file.display().to_string();
    write_db(&f, &main, &dbo)?;
    if r.chance(0.3) && !main.cells.is_empty() {
        // Free space left by the program's own deletions.
        let cmd = command(&mut r, "deleteblocks", &p, lo, hi);
        let out = apply(&cmd, &main, None);
        let argv = cmd.argv(&m.arg, None, true, &mut r);
        let ex = run_on(c, argv, &cwd, &m.file, None)?;
        let _ = out;
        main = World::from_raws(&ex.after);
        c.rep.add("after_deleteblocks", 1);
    }
    let stat = |q: &str| -> Result<i64, String> { let db = crate::ffi::Db::open(&f)?; Ok(db.scalar(q)?.parse::<i64>().unwrap_or(-1)) };
    let free0 = stat("PRAGMA freelist_count")?;
    let pages0 = stat("PRAGMA page_count")?;
    let size0 = fs::metadata(&m.file).map_err(|e| e.to_string())?.len();
    c.rep.add("free_pages_before", free0 as u64);
    let argv = Cmd { name: "vacuum", ..Default::default() }.argv(&m.arg, None, true, &mut r);
    // The database library may itself leave a few pages behind, when it builds the index
    // from rows in no order: what it does alone, with the same file, is what counts.
    let copy = c.sub("alone.sqlite");
    fs::copy(&m.file, &copy).map_err(|e| e.to_string())?;
    let ex = run_on(c, argv, &cwd, &m.file, None)?;
    if ex.run.has("error:") { return bad("vacuum-failed", ex.run.text()); }
    let want: Rows = main.cells.iter().map(|(k, v)| (*k, v.raw.to_vec())).collect();
    if ex.after != want {
        let k = want.keys().chain(ex.after.keys()).find(|k| want.get(k) != ex.after.get(k)).unwrap();
        return bad("rows", format!("{} rows before, {} after; first difference at block {:?}", want.len(), ex.after.len(), pos_of(*k)));
    }
    let db = crate::ffi::Db::open(&f)?;
    let ic = db.scalar("PRAGMA integrity_check")?;
    if ic != "ok" { return bad("integrity", ic); }
    drop(db);
    let free1 = stat("PRAGMA freelist_count")?;
    let pages1 = stat("PRAGMA page_count")?;
    let (free2, pages2) = if free1 != 0 || pages1 > pages0 {
        let db = crate::ffi::Db::open(&copy.display().to_string())?;
        db.exec("VACUUM")?;
        c.rep.add("compared_with_the_library_alone", 1);
        (db.scalar("PRAGMA freelist_count")?.parse::<i64>().unwrap_or(0), db.scalar("PRAGMA page_count")?.parse::<i64>().unwrap_or(0))
    } else { (0, 0) };
    let _ = fs::remove_file(&copy);
    if free1 > free2 { return bad("free-pages", format!("{free1} unused pages left (before: {free0} of {pages0}; by the database library alone: {free2})")); }
    if !dbo.wal {
        let size1 = fs::metadata(&m.file).map_err(|e| e.to_string())?.len();
        // SQLite may need a page more in auto-vacuum mode or for a different split; none otherwise.
        let slack = if dbo.auto_vacuum > 0 || free0 == 0 { 2 * dbo.page_size as u64 } else { 0 };
        if size1 > size0 + slack && pages1 > pages2 { return bad("larger", format!("file grew from {size0} to {size1} bytes")); }
        if (pages1 as u64) * dbo.page_size as u64 != size1 { return bad("size", format!("{pages1} pages but {size1} bytes")); }
    }
    c.rep.nontrivial = free0 > 0 || main.cells.len() > 1;
    c.rep.hash = world_hash(&main) ^ free0 as u64;
    c.rep.add("free_pages_reclaimed", (free0 - free1).max(0) as u64);
    c.rep.sample = Some(format!("{} rows, page size {}, {} pages of which {} unused before; {} pages after", main.cells.len(), dbo.page_size, pages0, free0, pages1));
    Ok(())
}

/// Contents for comparisons between runs: decoded where possible.
fn logical(rows: &Rows) -> BTreeMap<i64, Result<Block, Vec<u8>>> {
    rows.iter().map(|(k, v)| (*k, decode(v).map(|mut b| { b.normalize(); b }).map_err(|_| v.clone()))).collect()
}

fn exec_in(c: &mut Case, tag: &str, w: &World, src: Option<&World>, cmd: &Cmd, dbo: &DbOpts) -> Result<Rows, Fail> {
    let save = c.dir.clone();
    c.dir = save.join(tag);
    fs::create_dir_all(&c.dir).map_err(|e| e.to_string())?;
    let e = execute(c, &Job { main: w, src, cmd, dbo: dbo.clone(), sdbo: DbOpts::default() });
    c.dir = save;
    Ok(e?.after)
}

fn first_diff(a: &BTreeMap<i64, Result<Block, Vec<u8>>>, b: &BTreeMap<i64, Result<Block, Vec<u8>>>) -> Option<String> {
    let all = Sel { area: None, invert: false };
    for k in a.keys().chain(b.keys()) {
        match (a.get(k), b.get(k)) {
            (Some(Ok(x)), Some(Ok(y))) => { let d = diff_blocks(*k, x, y, &all, false); if !d.is_empty() { return Some(format!("block {:?} {}: {}", pos_of(*k), d[0].kind, d[0].detail)); } }
            (x, y) => if x != y { return Some(format!("block {:?}: {} versus {}", pos_of(*k), if x.is_some() { "stored" } else { "absent" }, if y.is_some() { "stored" } else { "absent" })); }
        }
    }
    None
}

/// C17: area and inverted area partition the map.
pub fn partition(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    const CMDS: [&str; 10] = ["replacenodes", "fill", "setparam2", "deletemeta", "setmetavar", "deleteobjects", "deletetimers", "replaceininv", "overlay", "deleteblocks"];
    let name = CMDS[c.idx as usize % 10];
    let (lo, hi) = place(&mut r, [4, 3, 3]);
    let rich = Rich { heavy: 0.02, ungen: 0.0, meta: 0.8, objs: 0.8, timers: 0.8, ..RICH };
    let main = world(&mut r, &p, lo, hi, &WorldCfg { max: [4, 3, 3], density: 0.8, rich });
    let src = if name == "overlay" { Some(source_world(&mut r, &p, lo, hi, 1.0, rich)) } else { None };
    let mut cmd = command(&mut r, name, &p, lo, hi);
    cmd.offset = None;
    if cmd.p1.is_none() { let (a, b) = area(&mut r, lo, hi); cmd.p1 = Some(a); cmd.p2 = Some(b); }
    cmd.invert = false;
    let a = cmd.area().unwrap();
    c.rep.hash = world_hash(&main) ^ strhash(&format!("{cmd:?}"));
    let dbo = db_opts(&mut r);
    c.rng = r.fork();
    c.rep.add(&format!("cmd_{name}"), 1);
    // Corner orders.
    let inside = exec_in(c, "inside", &main, src.as_ref(), &cmd, &dbo)?;
    let li = logical(&inside);
    for n in 0..2 {
        let bits = r.idx(8);
        let mut q = cmd.clone();
        let (mut x, mut y) = (a.min, a.max);
        for i in 0..3 { if bits >> i & 1 == 1 { std::mem::swap(&mut x[i], &mut y[i]); } }
        q.p1 = Some(x);
        q.p2 = Some(y);
        let o = exec_in(c, &format!("corners{n}"), &main, src.as_ref(), &q, &dbo)?;
        if let Some(d) = first_diff(&li, &logical(&o)) { return bad(&format!("{name}/corners"), format!("corners {:?} {:?} and {x:?} {y:?} of the same box select different regions: {d}", cmd.p1, cmd.p2)); }
        c.rep.add("corner_orders_compared", 1);
    }
    let mut inv = cmd.clone();
    inv.invert = true;
    let outside = exec_in(c, "outside", &main, src.as_ref(), &inv, &dbo)?;
    // Each run changes only its own part.
    let before: Rows = main.cells.iter().map(|(k, v)| (*k, v.raw.to_vec())).collect();
    for (k, v) in &before {
        let bp = pos_of(*k);
        if !a.meets_block(bp) && inside.get(k) != Some(v) { return bad(&format!("{name}/outside-changed"), format!("block {bp:?} lies outside the area but changed")); }
        if a.covers_block(bp) && outside.get(k) != Some(v) { return bad(&format!("{name}/inside-changed"), format!("block {bp:?} lies inside the area but --invert changed it")); }
    }
    let (lb, lo_) = (logical(&before), logical(&outside));
    if name == "deleteblocks" {
        for k in before.keys() {
            let bp = pos_of(*k);
            let cut = a.meets_block(bp) && !a.covers_block(bp);
            let (d1, d2) = (!inside.contains_key(k), !outside.contains_key(k));
            if d1 && d2 { return bad("deleteblocks/both", format!("block {bp:?} is deleted with the area and with its inverse")); }
            if (d1 || d2) == cut { return bad("deleteblocks/cut", format!("block {bp:?} ({} by the area's surface) is {}", if cut { "cut" } else { "not cut" }, if d1 || d2 { "deleted" } else { "kept by both" })); }
        }
        c.rep.nontrivial = before.len() != inside.len() || before.len() != outside.len();
        return Ok(());
    }
    // Both in sequence equal one run on the whole map.
    let w1 = World::from_raws(&inside);
    let both = exec_in(c, "both", &w1, src.as_ref(), &inv, &dbo)?;
    let (xa, xb) = ((-31000, 31000), 0);
    let _ = xb;
    let whole = if cmd.name == "fill" {
        // fill needs an area; a box around the whole box of blocks (areas end at +-31000).
        if lo.iter().any(|&v| v * 16 < xa.0) || hi.iter().any(|&v| v * 16 + 15 > xa.1) { c.rep.add("skipped_at_limit", 1); return Ok(()); }
        let mut q = cmd.clone(); q.p1 = Some([xa.0; 3]); q.p2 = Some([xa.1; 3]);
        exec_in(c, "whole", &main, src.as_ref(), &q, &dbo)?
    } else if cmd.name == "setparam2" && cmd.node.is_none() {
        if lo.iter().any(|&v| v * 16 < xa.0) || hi.iter().any(|&v| v * 16 + 15 > xa.1) { c.rep.add("skipped_at_limit", 1); return Ok(()); }
        let mut q = cmd.clone(); q.p1 = Some([xa.0; 3]); q.p2 = Some([xa.1; 3]);
        exec_in(c, "whole", &main, src.as_ref(), &q, &dbo)?
    } else {
        let mut q = cmd.clone(); q.p1 = None; q.p2 = None;
        exec_in(c, "whole", &main, src.as_ref(), &q, &dbo)?
    };
    let (mut x, mut y) = (logical(&both), logical(&whole));
    if name == "overlay" {
        // A partly selected block is not created, and its objects, timers and header may
        // come from either map; compare the nodes of blocks that existed before.
        for m in [&mut x, &mut y] {
            m.retain(|k, _| before.contains_key(k) || !(a.meets_block(pos_of(*k)) && !a.covers_block(pos_of(*k))));
            for (k, b) in m.iter_mut() { let bp = pos_of(*k); if a.meets_block(bp) && !a.covers_block(bp) { if let Ok(b) = b {
                b.objs.clear(); b.timers.clear(); b.flags = 0; b.lc = 0xFFFF; b.ts = 0; b.ver = 29;
                for m in b.meta.values_mut() { for v in m.vars.values_mut() { v.1 = false; } } } } }
        }
    }
    if let Some(d) = first_diff(&y, &x) { return bad(&format!("{name}/partition"), format!("area {a:?} followed by its inverse differs from the whole map: {d}")); }
    c.rep.add("partitions_compared", 1);
    let cut = before.keys().filter(|k| { let b = pos_of(**k); a.meets_block(b) && !a.covers_block(b) }).count();
    c.rep.add("blocks_cut", cut as u64);
    c.rep.nontrivial = first_diff(&lb, &logical(&both)).is_some();
    let two = first_diff(&lb, &li).is_some() && first_diff(&lb, &lo_).is_some();
    if two { c.rep.add("both_parts_nonempty", 1); }
    c.rep.sample = Some(c.log.lines().filter(|l| l.starts_with("command")).collect::<Vec<_>>().join(" ; ").chars().take(600).collect());
    Ok(())
}

/// C26: two ways of storing the same map.
pub fn representation(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    const CMDS: [&str; 11] = ["replacenodes", "fill", "setparam2", "deletemeta", "setmetavar", "deleteobjects", "deletetimers", "replaceininv", "overlay", "clone", "deleteblocks"];
    let name = CMDS[c.idx as usize % 11];
    let (lo, hi) = place(&mut r, [3, 3, 2]);
    let cross = r.chance(0.5);
    // Across versions: no private marks (not storable before 28).
    let rich = Rich { heavy: 0.05, ungen: 0.0, vers: if cross { &[27] } else { &[25, 26, 27, 28, 29] }, ..RICH };
    let m1 = world(&mut r, &p, lo, hi, &WorldCfg { max: [3; 3], density: 0.9, rich });
    let s1 = if name == "overlay" { Some(source_world(&mut r, &p, lo, hi, 0.8, rich)) } else { None };
    let mut restore = |w: &World, how: usize| {
        let mut v = World::default();
        for (k, x) in &w.cells {
            let mut b = (**x.block.as_ref().unwrap()).clone();
            if cross { b.ver = [25, 26, 27, 28, 29][if how == 0 { r.idx(5) } else { how - 1 }]; b.normalize(); }
            let mut e = enc(&mut r, &p);
            if r.chance(0.1) { e.id_mode = 3; }
            v.put(pos_of(*k), b, &e);
        }
        v
    };
    let how = c.idx as usize / 11 % 6;
    let m2 = restore(&m1, how);
    let s2 = s1.as_ref().map(|s| restore(s, 0));
    let mut cmd = command(&mut r, name, &p, lo, hi);
    if cmd.offset.is_some() { cmd.offset = Some([r.i32r(-40, 40), r.i32r(-40, 40), r.i32r(-40, 40)]); sane(&mut cmd); }
    if name == "overlay" && cmd.invert && cross { cmd.invert = false; }
    c.rep.hash = world_hash(&m1) ^ world_hash(&m2) ^ strhash(&format!("{cmd:?}"));
    let (d1, d2) = (db_opts(&mut r), db_opts(&mut r));
    c.rng = r.fork();
    let r1 = exec_in(c, "first", &m1, s1.as_ref(), &cmd, &d1)?;
    let r2 = exec_in(c, "second", &m2, s2.as_ref(), &cmd, &d2)?;
    let r3 = exec_in(c, "again", &m1, s1.as_ref(), &cmd, &d1)?;
    let l1 = logical(&r1);
    if let Some(d) = first_diff(&l1, &logical(&r3)) { return bad(&format!("{name}/repeat"), format!("repeating the run gives another result: {d}")); }
    let (mut a, mut b) = (l1, logical(&r2));
    if cross { for m in [&mut a, &mut b] { for x in m.values_mut().flatten_ok() { x.ver = 29; x.lc = 0xFFFF; } } }
    if let Some(d) = first_diff(&a, &b) { return bad(&format!("{name}/representation"), format!("two stored forms of the same map give different results: {d}")); }
    let before: Rows = m1.cells.iter().map(|(k, v)| (*k, v.raw.to_vec())).collect();
    c.rep.nontrivial = r1 != before;
    c.rep.add(&format!("cmd_{name}"), 1);
    c.rep.add(if cross { "pairs_of_versions" } else { "pairs_of_encodings" }, 1);
    c.rep.add("blocks_compared", r1.len() as u64);
    c.rep.sample = Some(format!("{:?} vs {:?}; mapeditr {}", d1, d2, cmd.name).chars().take(500).collect());
    Ok(())
}

trait FlattenOk<'a> { fn flatten_ok(self) -> Vec<&'a mut Block>; }
impl<'a, I: Iterator<Item = &'a mut Result<Block, Vec<u8>>>> FlattenOk<'a> for I {
    fn flatten_ok(self) -> Vec<&'a mut Block> { self.filter_map(|x| x.as_mut().ok()).collect() }
}
