//! C19: invalid invocations are refused untouched, valid ones are carried out.
use crate::cmd::*;
use crate::exec::*;
use crate::ffi::Db;
use crate::gen::*;
use crate::model::*;
use crate::props::*;
use crate::rng::*;
use crate::runner::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

/// Every file below a directory, with its bytes.
pub fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, base: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let name = p.strip_prefix(base).unwrap().display().to_string();
                if name.starts_with(".out") || name.starts_with(".err") { continue; }
                if p.is_dir() { m.insert(format!("{name}/"), vec![]); walk(&p, base, m); }
                else { m.insert(name, fs::read(&p).unwrap_or_default()); }
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, dir, &mut m);
    m
}
pub fn snapshot_diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, v) in a { match b.get(k) { None => return Some(format!("{k} is gone")), Some(w) if w != v => return Some(format!("{k} changed ({} bytes -> {} bytes)", v.len(), w.len())), _ => {} } }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} appeared"))
}

struct Inv { map: String, sub: Vec<String>, pos: Vec<String>, opts: Vec<(Vec<String>, bool)> }
impl Inv {
    fn render(&self, r: &mut Rng) -> Vec<String> {
        let mut opts = self.opts.clone();
        r.shuffle(&mut opts);
        // Options with any number of values come last: what follows would be taken as a value.
        // The confirmation option goes anywhere before those: it belongs to the program and to every command.
        let y = ["-y", "--yes"][r.idx(2)].to_string();
        let at = if self.sub.is_empty() { r.idx(2) } else { r.idx(4) };
        let mut v = vec![];
        if at == 0 { v.push(y.clone()); }
        v.push(self.map.clone());
        if at == 1 { v.push(y.clone()); }
        v.extend(self.sub.iter().cloned());
        if at == 2 { v.push(y.clone()); }
        if at == 3 { opts.push((vec![y], true)); r.shuffle(&mut opts); opts.sort_by_key(|o| !o.1); }
        let (mut a, mut b) = (vec![], vec![]);
        for (w, fixed) in opts { if fixed && r.chance(0.3) { a.extend(w); } else { b.extend(w); } }
        v.extend(a);
        v.extend(self.pos.iter().cloned());
        v.extend(b);
        v
    }
    fn opt(&mut self, n: &str) -> Option<&mut (Vec<String>, bool)> { self.opts.iter_mut().find(|o| o.0[0] == n) }
    fn drop_opt(&mut self, n: &str) { self.opts.retain(|o| o.0[0] != n); }
    fn set(&mut self, n: &str, v: &[String]) { self.drop_opt(n); let mut w = vec![n.to_string()]; w.extend(v.iter().cloned()); self.opts.push((w, true)); }
}
fn pos3(p: P) -> Vec<String> { p.iter().map(|v| v.to_string()).collect() }

pub fn bad_name(r: &mut Rng) -> String {
    // Longer than the format can store; not text at all.
    match r.idx(30) { 0 => return format!("mod:{}", "x".repeat([65532, 65533, 65600, 100_000, 131_000][r.idx(5)])), 1 => return format!("mod:a{RAW_FF}"), 2 => return format!("{RAW_FF}"), _ => {} }
    ["stone", "", "Default:stone", "default:sto ne", "default:st\u{e9}ne", "de fault:stone", "a:b:c", "default:stone\n", " default:stone", "default:stone ", "default:st-ne", "d\u{e9}f:x", "default;stone",
        "AIR", "Air", "air ", "ignore\n", "default:stone 1", "mod.x:y", "mod:y.z", "mod:\u{4e2d}", "MOD:x", "default:a\tb", "default:a/b", "air:b:c", "default:a\u{200b}"][r.idx(26)].to_string()
}

const COORD_BAD: [&str; 20] = ["31001", "-31001", "31016", "-31008", "32767", "-32768", "32768", "65536", "100000", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "abc", "1.5", "0x10", "12a", "1e3", "\u{10FFFF}", "1\u{10FFFF}"];
const OFS_BAD: [&str; 14] = ["62001", "-62001", "63000", "-65536", "65536", "131072", "2147483647", "-2147483648", "2147483648", "-99999999999", "x", "2.0", "1_000", "5-"];

/// Make a valid invocation invalid; returns what was done.
fn spoil(r: &mut Rng, c: &Cmd, v: &mut Inv, dir: &Path, main_dir: &Path, src: Option<&Path>) -> Option<String> {
    let has_area_opts = c.name != "vacuum";
    let inverts = !matches!(c.name, "clone" | "vacuum");
    let kind = r.idx(20);
    let s = |x: &str| x.to_string();
    Some(match kind {
        0 => { // A required argument is missing.
            let req: Vec<&str> = match c.name { "clone" => vec!["--p1", "--p2", "--offset", "area"], "deleteblocks" => vec!["--p1", "--p2", "area"], "fill" => vec!["--p1", "--p2", "area", "pos"],
                "replacenodes" | "replaceininv" | "setmetavar" | "setparam2" | "overlay" => vec!["pos"], _ => return None };
            let w = req[r.idx(req.len())];
            match w {
                "area" => { v.drop_opt("--p1"); v.drop_opt("--p2"); }
                "pos" => { if c.name == "replacenodes" && r.chance(0.5) { v.pos.truncate(1); } else { v.pos.clear(); } }
                o => v.drop_opt(o),
            }
            format!("{w} missing")
        }
        1 => { if !has_area_opts || c.p1.is_none() { return None; } let w = ["--p1", "--p2"][r.idx(2)]; v.drop_opt(w); format!("only one corner: no {w}") }
        2 | 3 => { // Coordinate out of range or malformed.
            if !has_area_opts { return None; }
            if c.p1.is_none() { v.set("--p1", &pos3([0; 3])); v.set("--p2", &pos3([5; 3])); }
            let w = ["--p1", "--p2"][r.idx(2)];
            let x = if r.chance(0.4) { ["31001", "-31001"][r.idx(2)] } else { COORD_BAD[r.idx(COORD_BAD.len())] };
            let i = 1 + r.idx(3);
            v.opt(w)?.0[i] = s(x);
            format!("{w} coordinate {x:?}")
        }
        4 => { // Wrong number of coordinates.
            if !has_area_opts { return None; }
            if c.p1.is_none() { v.set("--p1", &pos3([0; 3])); v.set("--p2", &pos3([5; 3])); }
            let w = ["--p1", "--p2"][r.idx(2)];
            let o = v.opt(w)?;
            if r.chance(0.5) { o.0.pop(); } else { let t = o.0[1..].to_vec(); o.0.push(w.into()); o.0.extend(t); }
            format!("{w} with {} words", o.0.len())
        }
        5 | 6 => {
            if !matches!(c.name, "clone" | "overlay") { return None; }
            v.drop_opt("--invert");
            if v.opt("--offset").is_none() { v.set("--offset", &pos3([0; 3])); }
            let x = if r.chance(0.4) { ["62001", "-62001"][r.idx(2)] } else { OFS_BAD[r.idx(OFS_BAD.len())] };
            // A huge offset alone would also put the destination outside: widen the area.
            if r.chance(0.7) { v.set("--p1", &pos3([-31000; 3])); v.set("--p2", &pos3([31000; 3])); }
            let i = 1 + r.idx(3);
            v.opt("--offset")?.0[i] = s(x);
            format!("offset {x:?}")
        }
        7 => { if !inverts { return None; } v.drop_opt("--p1"); v.drop_opt("--p2"); v.drop_opt("--invert"); v.drop_opt("--offset"); v.opts.push((vec![s("--invert")], true));
            if c.name == "setparam2" && v.opt("--node").is_none() { v.opts.push((vec![s("--node"), s("air")], true)); }
            s("--invert without an area") }
        8..=10 => { // Malformed name in one of the name slots.
            let n = bad_name(r);
            let mut slots: Vec<(&str, usize)> = vec![];
            match c.name { "replacenodes" => slots.extend([("pos", 0), ("pos", 1)]), "fill" => slots.push(("pos", 0)), "replaceininv" => { slots.push(("pos", 0)); if c.new_item.is_some() { slots.push(("pos", 1)); } } _ => {} }
            if matches!(c.name, "setparam2" | "deletemeta" | "deletetimers") { v.set("--node", &[s("air")]); slots.push(("--node", 1)); }
            if c.name == "deleteobjects" { if c.obj.is_some() || (c.items.is_none() && r.chance(0.5)) { v.set("--obj", &[s("a:b")]); slots.push(("--obj", 1)); } else { v.drop_opt("--items"); v.opts.push((vec![s("--items"), s("a:b"), s("c:d")], false)); slots.extend([("--items", 1), ("--items", 2)]); } }
            if matches!(c.name, "setmetavar" | "replaceininv") { v.drop_opt("--nodes"); v.opts.push((vec![s("--nodes"), s("a:b"), s("c:d"), s("air")], false)); slots.extend([("--nodes", 1), ("--nodes", 2), ("--nodes", 3)]); }
            if slots.is_empty() { return None; }
            let (w, i) = slots[r.idx(slots.len())];
            if w == "pos" { v.pos[i] = n.clone(); } else { v.opt(w)?.0[i] = n.clone(); }
            let n: String = n.chars().take(50).collect();
            format!("malformed name {n:?} at {w} {i}")
        }
        11 => { if c.name != "setparam2" { return None; }
            let x = ["256", "-1", "300", "65535", "abc", "", "1.0", "0x7f", "4294967296", " 5", "12 ", "\u{10FFFF}", "1\u{10FFFF}"][r.idx(13)]; v.pos[0] = s(x); format!("param2 {x:?}") }
        12 => { // Not an argument of this command at all.
            let all = ["--bogus", "--node", "--nodes", "--obj", "--items", "--delete", "--deletemeta", "--offset", "--invert", "--p1", "--all", "-z"];
            let w = all[r.idx(all.len())];
            let known = match w { "--p1" => has_area_opts, "--invert" => inverts, "--offset" => matches!(c.name, "clone" | "overlay"), "--node" => matches!(c.name, "setparam2" | "deletemeta" | "deletetimers"),
                "--nodes" => matches!(c.name, "setmetavar" | "replaceininv"), "--obj" | "--items" => c.name == "deleteobjects", "--delete" => matches!(c.name, "setmetavar" | "replaceininv"), "--deletemeta" => c.name == "replaceininv", _ => false };
            if known { return None; }
            v.opts.push((match w { "--p1" | "--offset" => vec![s(w), s("1"), s("2"), s("3")], "--node" | "--nodes" | "--obj" | "--items" => vec![s(w), s("air")], _ => vec![s(w)] }, true));
            format!("{w} does not belong to the command")
        }
        13 => { // Too many or no positionals / unknown command.
            match r.idx(3) {
                0 => { let list = v.opts.iter().any(|o| !o.1) || matches!(c.name, "replaceininv" | "setmetavar"); if list { return None; } v.pos.push(s("a:b")); s("superfluous argument") }
                1 => { v.sub = vec![]; v.pos.clear(); v.opts.clear(); s("no command") }
                _ => { v.sub = vec![s(["", "filll", "Fill", "replace", "vacuum ", "delete"][r.idx(6)])]; s("unknown command") }
            }
        }
        14 => { // Contradictions.
            match c.name {
                "deleteobjects" => { v.set("--obj", &[s("a:b")]); v.drop_opt("--items"); v.opts.push((if r.chance(0.5) { vec![s("--items")] } else { vec![s("--items"), s("a:b")] }, false)); s("--obj with --items") }
                "replaceininv" => match r.idx(4) {
                    0 => { v.pos.truncate(1); v.drop_opt("--delete"); v.drop_opt("--deletemeta"); s("no new item, --delete or --deletemeta") }
                    1 => { v.pos.truncate(1); v.pos.push(s("a:zz")); v.drop_opt("--delete"); v.opts.push((vec![s("--delete")], true)); s("new item with --delete") }
                    2 => { v.pos.truncate(1); v.pos.push(s("a:zz")); v.drop_opt("--delete"); v.drop_opt("--deletemeta"); v.opts.push((vec![s("--delete")], true)); v.opts.push((vec![s("--deletemeta")], true)); s("new item with --delete and --deletemeta") }
                    _ => { v.pos.truncate(1); let i = v.pos[0].clone(); v.pos.push(i); v.drop_opt("--delete"); v.drop_opt("--deletemeta"); s("item replaced with itself") }
                },
                "setmetavar" => match r.idx(3) {
                    0 => { v.pos.truncate(1); v.drop_opt("--delete"); s("neither value nor --delete") }
                    1 => { v.pos.truncate(1); v.pos.push(s("val")); v.drop_opt("--delete"); v.opts.push((vec![s("--delete")], true)); s("value with --delete") }
                    _ => { v.pos.truncate(1); v.pos.push(s("")); v.drop_opt("--delete"); s("empty value") }
                },
                "setparam2" => { v.drop_opt("--node"); v.drop_opt("--p1"); v.drop_opt("--p2"); v.drop_opt("--invert"); s("neither area nor node") }
                "replacenodes" => { v.pos[1] = v.pos[0].clone(); s("node replaced with itself") }
                "overlay" if r.chance(0.5) => { if c.p1.is_none() { v.set("--p1", &pos3([0; 3])); v.set("--p2", &pos3([5; 3])); } v.drop_opt("--invert"); v.opts.push((vec![s("--invert")], true)); let mut o = [0; 3]; o[r.idx(3)] = [1, -1, 16, -62000][r.idx(4)]; v.set("--offset", &pos3(o)); s("offset with --invert") }
                "overlay" | "clone" => { // Destination just outside.
                    let ax = r.idx(3);
                    let (mut a, mut b, mut o) = ([r.i32r(-50, 50); 3], [r.i32r(-50, 50); 3], [r.i32r(-20, 20); 3]);
                    let up = r.chance(0.5);
                    let k = r.i32r(0, 1) * r.i32r(0, 40);
                    if up { a[ax] = 31000 - r.i32r(0, 30); b[ax] = 31000; o[ax] = 31001 - a[ax] + k; } else { a[ax] = -31000; b[ax] = -31000 + r.i32r(0, 30); o[ax] = -31001 - b[ax] - k; }
                    v.drop_opt("--invert");
                    v.set("--p1", &pos3(a)); v.set("--p2", &pos3(b)); v.set("--offset", &pos3(o));
                    s("destination outside the map")
                }
                _ => return None,
            }
        }
        15 => { if !matches!(c.name, "setmetavar" | "replaceininv") { return None; } v.drop_opt("--nodes"); v.opts.push((vec![s("--nodes")], false)); s("--nodes without a name") }
        16..=18 => { // Not a map database.
            let (p, which) = if c.name == "overlay" && r.chance(0.5) { (dir.join("badsrc"), 1) } else { (dir.join("badmap"), 0) };
            fs::create_dir_all(&p).ok()?;
            let f = p.join("map.sqlite");
            let good = if which == 1 { src? } else { main_dir };
            let mut arg = if r.chance(0.5) { p.display().to_string() } else { f.display().to_string() };
            let mut what = r.idx(14);
            if what == 12 && which == 1 { what = 0; }
            let mk = |sql: &[&str]| { let db = Db::create(&f.display().to_string()).ok()?; for q in sql { db.exec(q).ok()?; } Some(()) };
            match what {
                0 => {}
                1 => fs::write(&f, b"").ok()?,
                2 => fs::write(&f, r.bytes(5000)).ok()?,
                3 => fs::write(&f, b"hello").ok()?,
                4 => mk(&["CREATE TABLE other (a, b)"])?,
                5 => mk(&["CREATE TABLE blocks (a INT PRIMARY KEY, data BLOB)"])?,
                6 => mk(&["CREATE TABLE blocks (pos TEXT PRIMARY KEY, data BLOB)"])?,
                7 => mk(&["CREATE TABLE blocks (pos INT, data BLOB)"])?,
                8 => mk(&["CREATE TABLE blocks (pos INT PRIMARY KEY, data TEXT)"])?,
                9 => mk(&["CREATE TABLE blocks (pos INT PRIMARY KEY)"])?,
                10 => mk(&["CREATE TABLE blocks (x INT, y INT, z INT, data BLOB NOT NULL, PRIMARY KEY (x, z, y))"])?,
                11 => { fs::create_dir_all(&f).ok()?; arg = p.display().to_string(); }
                12 => { // Damaged header.
                    let mut b = fs::read(good).ok()?; for i in 0..16 { b[i] ^= 0x55; } fs::write(&f, b).ok()?; }
                _ => { arg = p.join(["no such file.sqlite", "no such \u{10FFFF}"][r.idx(2)]).display().to_string(); }
            }
            if which == 1 { v.pos[0] = arg; } else { v.map = arg; }
            format!("{} is not a map database (kind {what})", ["map", "source"][which])
        }
        _ => { // A positional is malformed as a whole.
            if r.chance(0.3) { v.map = s("\u{1}"); return Some(s("no map")); }
            if c.name == "setparam2" { v.pos[0] = s("--p2"); s("param2 is an option") } else { return None; }
        }
    })
}

/// Push a valid command to the documented limits.
fn limits(r: &mut Rng, c: &mut Cmd) -> Option<String> {
    match r.idx(6) {
        5 => { // The longest names that can be stored.
            let long = |r: &mut Rng| { let k = 1 + r.idx(65_533); format!("{}:{}", "m".repeat(k), "N".repeat(65_534 - k)) };
            match c.name {
                "fill" | "replacenodes" => c.new_node = Some(long(r)),
                "replaceininv" if c.new_item.is_some() => c.new_item = Some(long(r)),
                "setparam2" | "deletemeta" | "deletetimers" => c.node = Some(long(r)),
                "deleteobjects" if c.obj.is_some() => c.obj = Some(long(r)),
                _ => return None,
            }
            Some("a name of 65535 bytes".into())
        }
        0 => { if c.name == "vacuum" || c.offset.is_some() { return None; } let f = |r: &mut Rng| [[-31000; 3], [31000; 3], [-31000, 31000, -31000], [31000, -31000, 31000]][r.idx(4)]; c.p1 = Some(f(r)); c.p2 = Some(f(r)); Some("corners at the limit".into()) }
        1 => { if c.name == "vacuum" { return None; } let i = r.idx(3); c.p1.as_mut()?[i] = [-31000, 31000][r.idx(2)]; sane(c); Some("a coordinate at the limit".into()) }
        2 => { c.param2?; c.param2 = Some([0, 255][r.idx(2)]); Some("param2 at the limit".into()) }
        3 | 4 => {
            if !matches!(c.name, "clone" | "overlay") { return None; }
            c.invert = false;
            let ax = r.idx(3);
            let (a, b) = (c.p1.unwrap_or([0; 3]), c.p2.unwrap_or([9; 3]));
            let (mut a, mut b, mut o) = (a, b, [0; 3]);
            if r.chance(0.5) { // The largest offset.
                let up = r.chance(0.5);
                let (x, y) = if up { (-31000, -31000 + r.i32r(0, 60)) } else { (31000 - r.i32r(0, 60), 31000) };
                a[ax] = x; b[ax] = y; o[ax] = if up { 62000 } else { -62000 };
            } else { // Destination touches the last node of the map.
                let up = r.chance(0.5);
                let (x, y) = (a[ax].min(b[ax]), a[ax].max(b[ax]));
                o[ax] = if up { 31000 - x } else { -31000 - y };
                if o[ax].abs() > 62000 { return None; }
            }
            c.p1 = Some(a); c.p2 = Some(b); c.offset = Some(o);
            Some(format!("offset {o:?}"))
        }
        _ => None,
    }
}

pub fn arguments(c: &mut Case) -> Res {
    let mut r = c.rng.clone();
    let p = Pal::new(&mut r);
    let name = ALL[c.idx as usize % ALL.len()];
    let (lo, hi) = if r.chance(0.2) { let e = [1936, -1937][r.idx(2)]; ([e; 3], [e + 1, e, e + 1]) } else { place(&mut r, [2, 2, 2]) };
    let rich = Rich { heavy: 0.0, many: 0.0, ..RICH };
    let cfg = WorldCfg { max: [2; 3], density: 0.9, rich };
    let main = world(&mut r, &p, lo, hi, &cfg);
    let mut cmd = command(&mut r, name, &p, lo, hi);
    let src = if name == "overlay" { Some(source_world(&mut r, &p, lo, hi, 0.9, rich)) } else { None };
    let want_bad = r.chance(0.6);
    let mut what = String::new();
    if !want_bad && r.chance(0.6) { for _ in 0..4 { if let Some(w) = limits(&mut r, &mut cmd) { what = w; break; } } }
    let cwd = c.sub("run");
    fs::create_dir_all(&cwd).map_err(|e| e.to_string())?;
    let m = spot(&mut r, &cwd, "world");
    write_db(&m.file.display().to_string(), &main, &DbOpts { wal: false, ..db_opts(&mut r) })?;
    let s = match &src { Some(w) => { let s = spot(&mut r, &cwd, "source"); write_db(&s.file.display().to_string(), w, &DbOpts { wal: false, ..db_opts(&mut r) })?; Some(s) } None => None };
    let new_inv = || Inv { map: m.arg.clone(), sub: vec![name.to_string()], pos: cmd.positionals(s.as_ref().map(|s| s.arg.as_str())), opts: cmd.options() };
    if r.chance(0.03) {
        // -h or --help, before everything else or right after the subcommand.
        let h = ["-h", "--help"][r.idx(2)].to_string();
        let mut argv = new_inv().render(&mut r);
        let of_sub = r.chance(0.7);
        if of_sub {
            argv = vec![m.arg.clone(), name.to_string(), h];
            if r.chance(0.5) { argv.remove(0); if r.chance(0.5) { argv.insert(0, "nowhere/at all".into()); } else { argv.insert(0, m.arg.clone()); } }
            if r.chance(0.4) { argv.extend(cmd.positionals(s.as_ref().map(|s| s.arg.as_str()))); }
            if r.chance(0.3) { argv.insert(0, "-y".into()); }
        } else { match r.idx(3) { 0 => argv = vec![h], 1 => argv = vec![m.arg.clone(), h], _ => argv.insert(0, h) } }
        c.rep.hash = strhash(&shell(&argv));
        c.rep.nontrivial = true;
        c.rep.add("help_requests", 1);
        let before = snapshot(&cwd);
        let bin = c.bin().clone();
        c.note(format!("build: {}\nhelp: mapeditr {}", bin.0, shell(&argv)));
        let run = crate::exec::run(&Spec { bin: &bin.1, args: argv.clone(), cwd: &cwd, stdin: Some(b"y\n".to_vec()), env: vec![], cpu: 60, wall: 120.0 })?;
        c.note(run.describe());
        if let Some(f) = run.fault() { return bad("help-crash", format!("help: {f}")); }
        if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
        if let Some(d) = snapshot_diff(&before, &snapshot(&cwd)) { return bad("help-modified", format!("asking for help modified files: {d}")); }
        if run.done() || run.has("Proceed?") { return bad("help-ran", "asking for help ran a command"); }
        if run.end != End::Exit(0) || run.error_shown() { return bad("help-refused", format!("asking for help failed: {:?} {}", run.end, tail(&run.etext()))); }
        // Everything the manual lists is mentioned.
        let want: Vec<&str> = if !of_sub { ALL.to_vec() } else { match name {
            "clone" => vec!["--p1", "--p2", "--offset"],
            "deleteblocks" => vec!["--p1", "--p2", "--invert"],
            "deletemeta" | "deletetimers" => vec!["--node", "--p1", "--p2", "--invert"],
            "deleteobjects" => vec!["--obj", "--items", "--p1", "--p2", "--invert"],
            "fill" => vec!["new_node", "--p1", "--p2", "--invert"],
            "overlay" => vec!["input_map", "--p1", "--p2", "--invert", "--offset"],
            "replaceininv" => vec!["item", "new_item", "--delete", "--deletemeta", "--nodes", "--p1", "--p2", "--invert"],
            "replacenodes" => vec!["node", "new_node", "--p1", "--p2", "--invert"],
            "setmetavar" => vec!["key", "value", "--delete", "--nodes", "--p1", "--p2", "--invert"],
            "setparam2" => vec!["param2", "--node", "--p1", "--p2", "--invert"],
            _ => vec![],
        } };
        for w in want { if !run.has(w) { return bad("help-incomplete", format!("mapeditr {} does not mention {w}", shell(&argv))); } }
        return Ok(());
    }
    if !want_bad {
        let v = new_inv();
        let argv = v.render(&mut r);
        c.rep.hash = strhash(&shell(&argv)) ^ world_hash(&main);
        let out = apply(&cmd, &main, src.as_ref());
        c.rep.add("valid_invocations", 1);
        if !what.is_empty() { c.rep.add("valid_at_a_limit", 1); }
        c.rep.nontrivial = true;
        c.rep.add(&format!("valid: {name}"), 1);
        c.rng = r;
        c.note(format!("valid invocation ({what})"));
        let ex = run_on(c, argv, &cwd, &m.file, s.map(|s| s.file))?;
        if ex.run.error_shown() { return bad(&format!("{name}/valid-error"), format!("a valid command ({what}) showed an error:\n{}", ex.run.text())); }
        if ex.run.end != End::Exit(0) { return bad(&format!("{name}/valid-status"), format!("a valid command ended with {:?}", ex.run.end)); }
        let d = compare(&out, &ex.after, &cmd.target());
        if !d.is_empty() { return bad(&format!("{name}/valid-effect"), format!("a valid command ({what}) was not carried out as documented: {}", report(&d))); }
        c.rep.sample = Some(format!("valid: mapeditr {}", shell(&ex.argv)).chars().take(500).collect());
        return Ok(());
    }
    let mut done = None;
    let mut v = new_inv();
    for _ in 0..30 {
        v = new_inv();
        if let Some(w) = spoil(&mut r, &cmd, &mut v, &cwd, &m.file, s.as_ref().map(|s| s.file.as_path())) { done = Some(w); break; }
    }
    let Some(what) = done else { return Ok(()) };
    let mut argv = v.render(&mut r);
    if what == "no map" { argv.retain(|a| a != "\u{1}"); }
    c.rep.hash = strhash(&shell(&argv)) ^ strhash(&what);
    // Sometimes without -y, with "y" on standard input: still refused.
    let ask = r.chance(0.2);
    if ask { if let Some(i) = argv.iter().position(|a| a == "-y" || a == "--yes") { argv.remove(i); } }
    c.rep.nontrivial = true;
    c.rep.add("invalid_invocations", 1);
    let cat: String = what.split(|ch: char| ch == '"' || ch.is_ascii_digit()).next().unwrap_or("").trim().to_string();
    c.rep.add(&format!("invalid: {cat}"), 1);
    let before = snapshot(&cwd);
    let bin = c.bin().clone();
    c.note(format!("build: {}\ninvalid ({what}): mapeditr {}", bin.0, shell(&argv)));
    let run = crate::exec::run(&Spec { bin: &bin.1, args: argv.clone(), cwd: &cwd, stdin: if ask { Some(b"y\n".to_vec()) } else { None }, env: vec![], cpu: 60, wall: 120.0 })?;
    c.note(run.describe());
    c.rep.sample = Some(format!("invalid ({what}): mapeditr {} -> {:?}", shell(&argv), run.lines().first().cloned().unwrap_or_else(|| tail(&run.etext()))).chars().take(500).collect());
    if let Some(f) = run.fault() { return bad(&format!("invalid-crash/{cat}"), format!("refusing ({what}): {f}")); }
    if run.slow() { return Err(Fail::Inconclusive("still working after the time limit".into())); }
    if let Some(d) = snapshot_diff(&before, &snapshot(&cwd)) { return bad(&format!("invalid-modified/{cat}"), format!("an invalid invocation ({what}) modified files: {d}")); }
    if run.done() { return bad(&format!("invalid-accepted/{cat}"), format!("an invalid invocation ({what}) was carried out")); }
    if !run.error_shown() { return bad(&format!("invalid-silent/{cat}"), format!("an invalid invocation ({what}) was refused without an error message")); }
    Ok(())
}
