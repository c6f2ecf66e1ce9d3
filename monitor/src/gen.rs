//! Generators for names, blocks, worlds, areas, offsets and commands.
use crate::cmd::*;
use crate::mb::*;
use crate::rng::Rng;
use crate::world::*;
use std::collections::BTreeMap;

/// The vocabulary of one case.
#[derive(Clone)]
pub struct Pal {
    pub target: String, pub newn: String, pub other: Vec<String>,
    pub ids: Vec<Name>, pub target_id: Name, pub newn_id: Name,
    pub item: String, pub new_item: String, pub items: Vec<String>,
    pub ent: String, pub ents: Vec<String>,
    pub key: String, pub keys: Vec<Vec<u8>>,
    /// A param2 value that is to be set and already occurs.
    pub p2: u8,
}

fn word(r: &mut Rng) -> String {
    let n = 1 + r.idx(8);
    (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz_0123456789") as char).collect()
}
/// Blocks stored by the game itself.
pub const REAL: [&[u8]; 3] = [include_bytes!("../data/mapblock_v25.bin"), include_bytes!("../data/mapblock_v28.bin"), include_bytes!("../data/mapblock_v29.bin")];
/// A valid name.
pub fn name(r: &mut Rng) -> String {
    match r.weighted(&[50, 8, 8, 6, 4, 3, 3, 2]) {
        0 => format!("{}:{}", word(r), word(r)),
        1 => "air".into(),
        2 => "default:stone".into(),
        3 => format!("{}:{}", word(r), word(r).to_uppercase()),
        4 => "ignore".into(),
        5 => format!("{}:{}", "m".repeat(1 + r.idx(40)), "x".repeat(1 + r.idx(300))),
        6 => ["a:", ":b", ":", "0:0", "_:_"][r.idx(5)].into(),
        _ => ["a:b", "a:b", "m:EndInventory", ":EndInventory", "m:EndInventoryList", "m:Item", "m:Empty", "list:List"][r.idx(8)].into(),
    }
}
/// Names that are easily confused with `n`.
pub fn lookalikes(n: &str, r: &mut Rng) -> Vec<String> {
    let mut v = vec![format!("{n}_brick"), format!("{n}1"), format!("x{n}"), n.to_uppercase(), n.chars().rev().collect::<String>()];
    if n.len() > 1 { v.push(n[..n.len() - 1].to_string()); v.push(n[1..].to_string()); }
    if let Some(i) = n.find(':') { v.push(n[..i].to_string()); v.push(n[i + 1..].to_string()); v.push(n.replace(':', "_")); }
    v.push(format!("{n} "));
    v.push(format!(" {n}"));
    v.push(format!("{n}\0"));
    v.push(format!("{n}\n"));
    v.push(format!("{n}:{n}"));
    v.retain(|x| x != n && x.len() < 1000);
    r.shuffle(&mut v);
    v
}

impl Pal {
    pub fn new(r: &mut Rng) -> Pal {
        let real = r.chance(0.03);
        let target = if real { ["test_mod:stone", "test_mod:timer", "test_mod:metadata", "air"][r.idx(4)].into() } else { name(r) };
        let mut newn = if r.chance(0.25) { let l = lookalikes(&target, r); r.pick(&l).clone() } else { name(r) };
        if !valid_name(&newn) { newn = name(r); }
        while newn == target { newn = name(r); }
        let mut other: Vec<String> = vec![];
        let n = [1, 2, 4, 8, 20, 60][r.idx(6)];
        for _ in 0..n { other.push(name(r)); }
        for l in lookalikes(&target, r).into_iter().take(3) { other.push(l); }
        for l in lookalikes(&newn, r).into_iter().take(2) { other.push(l); }
        other.push("air".into());
        other.retain(|x| *x != target && *x != newn);
        other.sort();
        other.dedup();
        r.shuffle(&mut other);
        let item = if real { "test_mod:stone".into() } else if r.chance(0.3) { target.clone() } else { let mut n = name(r); while n == "ignore" { n = name(r); } n };
        let mut new_item = if r.chance(0.3) { lookalikes(&item, r).into_iter().find(|x| valid_name(x)).unwrap_or("q:q".into()) } else { name(r) };
        while new_item == item { new_item = name(r); }
        let mut items = lookalikes(&item, r).into_iter().filter(|x| !x.contains([' ', '\n', '\0'])).take(3).collect::<Vec<_>>();
        for _ in 0..3 { items.push(name(r)); }
        items.push(new_item.clone());
        items.retain(|x| *x != item && !x.is_empty());
        let ent = if real { ["test_mod:color_entity", "test_mod:nametag_entity"][r.idx(2)].into() } else if r.chance(0.1) { "__builtin:item".into() } else { name(r) };
        let mut ents: Vec<String> = lookalikes(&ent, r).into_iter().take(2).collect();
        ents.push("__builtin:falling_node".into());
        ents.push("__builtin:item2".into());
        ents.push(name(r));
        let key = ["infotext", "owner", "formspec", "k", "a key with spaces", "cl\u{e9}", "x=y"][r.idx(7)].to_string();
        let mut keys: Vec<Vec<u8>> = vec![b"infotext".to_vec(), b"owner".to_vec(), b"formspec".to_vec(), vec![], b"\x00\xff".to_vec(),
            format!("{key}2").into_bytes(), key.as_bytes()[..key.len() - 1].to_vec(), key.to_uppercase().into_bytes(), b"EndInventory\n".to_vec()];
        if r.chance(0.5) {
            let k = key.as_bytes();
            for x in [[k, b"\0"].concat(), [b"\0", k].concat(), [k, b" "].concat(), [b" ", k].concat(), [k, b"\n"].concat(), [k, b"\r\n"].concat(), [k, k].concat(), k.iter().rev().copied().collect()] {
                if r.chance(0.4) { keys.push(x); }
            }
        }
        keys.retain(|k| k != key.as_bytes());
        let target_id = intern(target.as_bytes());
        let newn_id = intern(newn.as_bytes());
        let ids = other.iter().map(|s| intern(s.as_bytes())).collect();
        Pal { target, newn, other, ids, target_id, newn_id, item, new_item, items, ent, ents, key, keys, p2: [0, 1, 255, 128, 42][r.idx(5)] }
    }
}

pub fn valid_name(n: &str) -> bool {
    if n == "air" || n == "ignore" { return true; }
    let Some((a, b)) = n.split_once(':') else { return false };
    a.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'_') && b.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
}

/// How rich block contents are.
#[derive(Clone, Copy)]
pub struct Rich {
    pub meta: f64, pub objs: f64, pub timers: f64,
    /// Probability that a section is huge (hundreds to thousands of entries, or values of 100 KB and more).
    pub heavy: f64,
    /// Share of blocks with many small metadata, objects or timers.
    pub many: f64,
    /// Probability that the target name occurs in a block.
    pub target: f64,
    /// Probability of a stored block being marked as not generated.
    pub ungen: f64,
    /// Objects may have any position (only where no area is used).
    pub wild_pos: bool,
    /// Share of objects that have moved out of the block storing them.
    pub stray: f64,
    pub vers: &'static [u8],
}
pub const RICH: Rich = Rich { meta: 0.6, objs: 0.5, timers: 0.5, heavy: 0.02, many: 0.04, target: 0.8, ungen: 0.04, wild_pos: false, stray: 0.0, vers: &[25, 27, 28, 28, 29, 29, 26] };

fn fill_pattern(r: &mut Rng, names: &[Name]) -> Vec<Name> {
    let mut v = vec![names[0]; 4096];
    match r.weighted(&[4, 5, 4, 4, 3, 2, 2]) {
        0 => {}
        1 => for x in v.iter_mut() { *x = *r.pick(names); },
        2 => { let axis = [1usize, 16, 256][r.idx(3)]; for (i, x) in v.iter_mut().enumerate() { *x = names[(i / axis % 16) % names.len()]; } }
        3 => { let n = 1 + r.idx(40); for _ in 0..n { v[r.idx(4096)] = *r.pick(names); } }
        4 => for (i, x) in v.iter_mut().enumerate() { *x = names[((i & 1) ^ (i >> 4 & 1) ^ (i >> 8 & 1)) % names.len()]; },
        5 => for (i, x) in v.iter_mut().enumerate() { *x = names[i % names.len()]; },
        _ => { // only on the block's surface or in its corners
            for (i, x) in v.iter_mut().enumerate() {
                let e = |c: usize| (c == 0 || c == 15) as u8;
                if e(i % 16) + e(i / 16 % 16) + e(i / 256) >= 1 + r.idx(3) as u8 { *x = names[1 % names.len()]; }
            }
        }
    }
    v
}

pub fn bytes_value(r: &mut Rng, heavy: bool) -> Vec<u8> {
    if heavy {
        let n = match r.idx(6) { 0 => 65535, 1 => 65536, 2 => 32768, 3 => 131_072 + r.idx(10_000), 4 => 200_000 + r.idx(300_000), _ => 1_000_000 + r.idx(500_000) };
        return match r.idx(4) { 0 => vec![b'x'; n], 1 => b"abc def\n".repeat(n / 8), _ => r.bytes(n) };
    }
    match r.weighted(&[3, 6, 3, 2, 2, 2, 1, 1]) {
        0 => vec![],
        1 => word(r).into_bytes(),
        2 => { let n = r.idx(300); r.bytes(n) }
        3 => b"EndInventory\n".to_vec(),
        4 => b"List main 4\nWidth 0\nEmpty\nEndInventoryList\nEndInventory\n".to_vec(),
        5 => { let n = r.idx(3000); vec![b'f'; n] }
        6 => "size[8,9]\u{fc}\u{1F600}".as_bytes().to_vec(),
        _ => { let n = 250 + r.idx(12); r.bytes(n) }
    }
}

fn item_line(r: &mut Rng, p: &Pal) -> String {
    let n = if r.chance(0.45) { p.item.clone() } else { r.pick(&p.items).clone() };
    let count = if r.chance(0.3) { 1 } else { [2, 3, 10, 99, 65535, 64][r.idx(6)] };
    let wear = [1, 300, 32768, 65535, 10][r.idx(5)];
    let metas = [
        "\"\\u0001color\\u0002#FF00FF\\u0003\"".to_string(),
        format!("\"\\u0001k\\u0002Item {} 5\\u0003\"", p.item),
        "\"\\u0001check\\u0002EndInventory\\n\\u0003\"".to_string(),
        "\u{1}some variable\u{2}some value\u{3}".to_string(),
        "plain old text".to_string(),
        format!("{} {}", p.item, p.item),
        "\"\"".to_string(),
        "ends with a space ".to_string(),
        " two  spaces\tand a tab\t".to_string(),
        "caf\u{e9}\r".to_string(),
    ];
    match r.weighted(&[5, 4, 3, 3, 2]) {
        0 => format!("Item {n}\n"),
        1 => format!("Item {n} {count}\n"),
        2 => format!("Item {n} {count} {wear}\n"),
        3 => format!("Item {n} {count} 0 {}\n", r.pick(&metas)),
        _ => format!("Item {n} 1 {wear} {}\n", r.pick(&metas)),
    }
}

pub fn inventory(r: &mut Rng, p: &Pal, heavy: bool) -> Vec<u8> {
    let mut s = String::new();
    if !heavy && r.chance(0.12) {
        // As small as they get.
        let size = r.idx(2);
        s += &format!("List {} {size}\n", ["a", "main", "src", "fuel"][r.idx(4)]);
        if r.chance(0.3) { s += &format!("Width {}\n", r.idx(3)); }
        for _ in 0..size { if r.chance(0.5) { s += &item_line(r, p); } else { s += "Empty\n"; } }
        s += "EndInventoryList\nEndInventory\n";
        return s.into_bytes();
    }
    if !heavy && r.chance(0.02) { return [&b"x\nEndInventory\n"[..], b"List\nEndInventory\n", b"EndInventoryList\nEndInventory\n"][r.idx(3)].to_vec(); }
    let lists = if heavy { 20 } else { 1 + r.idx(3) };
    for i in 0..lists {
        let size = if heavy { 300 } else { [0, 1, 4, 8, 32][r.idx(5)] };
        let ln = match r.idx(7) { 0 => "main".to_string(), 1 => "src".into(), 2 => p.item.clone(), 3 => "Item".into(), 4 => "Empty".into(), _ => format!("list{i}") };
        s += &format!("List {ln} {size}\nWidth {}\n", r.idx(9));
        for _ in 0..size { if r.chance(0.5) { s += &item_line(r, p); } else { s += "Empty\n"; } }
        s += "EndInventoryList\n";
    }
    s += "EndInventory\n";
    s.into_bytes()
}

pub fn metadata(r: &mut Rng, p: &Pal, ver: u8, heavy: bool) -> Meta {
    let mut m = Meta { vars: BTreeMap::new(), inv: EMPTY_INV.to_vec() };
    let nv = if heavy && r.chance(0.5) { [65, 256, 300, 1000][r.idx(4)] } else { r.idx(4) };
    for i in 0..nv {
        let k = if i > 20 { format!("v{i}").into_bytes() } else { r.pick(&p.keys).clone() };
        let big = heavy && r.chance(if nv > 20 { 0.002 } else { 0.4 });
        let v = bytes_value(r, big);
        m.vars.insert(k, (v, ver >= 28 && r.chance(0.4)));
    }
    if r.chance(0.5) {
        let v = bytes_value(r, false);
        m.vars.insert(p.key.clone().into_bytes(), (v, ver >= 28 && r.chance(0.5)));
    }
    if heavy && r.chance(0.1) { let k = r.bytes(65535); m.vars.insert(k, (b"longkey".to_vec(), false)); }
    if r.chance(0.5) { let h = heavy && r.chance(0.3); m.inv = inventory(r, p, h); }
    if m.is_empty() { m.vars.insert(b"z".to_vec(), (b"1".to_vec(), false)); }
    m
}

pub fn lua_object(name: &[u8], state: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut d = vec![1];
    d.extend_from_slice(&(name.len() as u16).to_be_bytes());
    d.extend_from_slice(name);
    d.extend_from_slice(&(state.len() as u32).to_be_bytes());
    d.extend_from_slice(state);
    let n = 18 + r.idx(20);
    d.extend(r.bytes(n));
    d
}

pub fn dropped_state(r: &mut Rng, p: &Pal) -> Vec<u8> {
    let n = if r.chance(0.5) { p.item.clone() } else { r.pick(&p.items).clone() };
    let tail = match r.idx(5) { 0 => String::new(), 1 => " 5".into(), 2 => " 1 300".into(), 3 => " 99 32".into(), _ => " 1 0 \\\"\\\\u0001k\\\\u0002v\\\\u0003\\\"".into() };
    let decoy = r.pick(&p.items).clone();
    match r.weighted(&[3, 3, 3, 1, 1, 2, 2, 1]) {
        0 => format!("{n}{}", match r.idx(3) { 0 => "", 1 => " 5", _ => " 2 100" }),
        1 => format!("return {{[\"age\"] = 0.91899997927248478, [\"itemstring\"] = \"{n}{tail}\", [\"dropped_by\"] = \"{decoy}\"}}"),
        2 => format!("return {{age=400,itemstring=\"{n}{tail}\",dropped_by=\"{decoy}\"}}"),
        3 => "return {}".to_string(),
        4 => "return {itemstring=\"\",age=100}".to_string(),
        5 => format!("return {{[\"itemstring\"] = \"{n}{tail}\"}}"),
        6 => format!("return {{itemstring=\"{n}{tail}\"}}"),
        _ => String::new(),
    }.into_bytes()
}

fn object(r: &mut Rng, p: &Pal, bp: P, x: &Rich, heavy: bool) -> Obj {
    let wild = x.wild_pos;
    let mut pos = [0i32; 3];
    let stray = x.stray > 0.0 && r.chance(x.stray);
    for i in 0..3 {
        // Anywhere in the block's nodes, but never exactly between two nodes.
        let mut node = bp[i] * 16 + r.i32r(0, 15);
        if stray { node = (node + [0, r.i32r(-30, 30), 16, -16][r.idx(4)]).clamp(-100_000, 100_000); }
        let off = match r.idx(4) { 0 => 0, 1 => 4999, 2 => -4999, _ => r.i32r(-4990, 4990) };
        pos[i] = node * 10000 + off;
        if wild && r.chance(0.3) { pos[i] = [i32::MAX, i32::MIN, i32::MAX - 4999, i32::MIN + 5001, 0, -1][r.idx(6)]; }
    }
    let big = |r: &mut Rng, n: usize| if heavy { let k = [60_000, 65_535 - 40 - n, 32_768][r.idx(3)]; r.bytes(k) } else { let k = r.idx(60); r.bytes(k) };
    let data = match r.weighted(&[5, 4, 6, 2, 2, 1]) {
        0 => { let s = big(r, p.ent.len()); lua_short(r, p.ent.as_bytes(), &s) }
        1 => { let e = r.pick(&p.ents).clone(); let s = big(r, e.len()); lua_short(r, e.as_bytes(), &s) }
        2 => { let s = dropped_state(r, p); lua_object(b"__builtin:item", &s, r) }
        3 => { let mut d = lua_object(p.ent.as_bytes(), b"x", r); d[0] = [0, 2, 255][r.idx(3)]; d }
        4 => { let n = r.idx(50); r.bytes(n) }
        _ => vec![],
    };
    let ty = if r.chance(0.8) { 7 } else { [0, 1, 2, 6, 8, 100, 255][r.idx(7)] };
    Obj { ty, pos, data }
}
fn lua_short(r: &mut Rng, name: &[u8], state: &[u8]) -> Vec<u8> {
    let mut d = lua_object(name, state, r);
    d.truncate(65535);
    d
}

pub fn block(r: &mut Rng, p: &Pal, bp: P, x: &Rich) -> Block {
    let ver = *r.pick(x.vers);
    let heavy = r.chance(x.heavy);
    let many = r.chance(x.many);
    let mut names: Vec<Name> = vec![];
    let n = if heavy && r.chance(0.5) { 0 } else { [1, 2, 3, 5, 9, 30][r.idx(6)] };
    if n == 0 {
        let m = [256, 257, 300, 1000, 4096][r.idx(5)];
        for i in 0..m { names.push(intern(format!("many:n{i}").as_bytes())); }
    }
    for _ in 0..n { let v = *r.pick(&p.ids); if !names.contains(&v) { names.push(v); } }
    let fuzzy_names = heavy && r.chance(0.2);
    if fuzzy_names { let b = r.bytes(65535); names.push(intern(&b)); }
    if r.chance(x.target) { names.push(p.target_id); }
    if r.chance(0.4) { names.push(p.newn_id); }
    if names.len() < 256 || r.chance(0.5) { r.shuffle(&mut names); }
    names.truncate(4096);
    let nodes = fill_pattern(r, &names);
    let pb = |r: &mut Rng| -> Vec<u8> {
        match r.idx(5) { 0 => vec![0; 4096], 1 => vec![r.idx(256) as u8; 4096], 2 => (0..4096).map(|i| (i % 251) as u8).collect(), _ => r.bytes(4096) }
    };
    let (p1, mut p2) = (pb(r), pb(r));
    if r.chance(0.3) { // Mostly or partly as a command is going to set it.
        let share = [0.5, 0.9, 0.99, 0.1][r.idx(4)];
        for x in p2.iter_mut() { if r.chance(share) { *x = p.p2; } }
    }
    let mut meta = BTreeMap::new();
    if r.chance(x.meta) {
        let n = if many && r.chance(0.6) || heavy && r.chance(0.4) { [255, 256, 257, 300, 1000, 4096][r.weighted(&[3, 3, 3, 3, 1, 1])] } else { 1 + r.idx(8) };
        let mut big_left = 2;
        for i in 0..n {
            let i = if n == 4096 { i } else { r.idx(4096) };
            let i = if r.chance(0.1) { [0, 4095, 15, 16, 255, 256][r.idx(6)] } else { i };
            let h = heavy && big_left > 0 && r.chance(0.3);
            if h { big_left -= 1; }
            meta.insert(i as u16, if n > 200 && !h { Meta { vars: [(b"k".to_vec(), (i.to_string().into_bytes(), false))].into(), inv: EMPTY_INV.to_vec() } } else { metadata(r, p, ver, h) });
        }
    }
    let mut objs = vec![];
    if r.chance(x.objs) {
        let n = if many && r.chance(0.5) || heavy && r.chance(0.3) { [64, 65, 255, 256, 300, 2000][r.idx(6)] } else { 1 + r.idx(6) };
        for _ in 0..n { let h = heavy && r.chance(0.02); objs.push(object(r, p, bp, x, h)); }
    }
    let mut timers = vec![];
    if r.chance(x.timers) {
        let n = if many && r.chance(0.5) || heavy && r.chance(0.3) { [255, 256, 300, 4096][r.idx(4)] } else { 1 + r.idx(6) };
        let mut pos: Vec<u16> = (0..4096).collect();
        r.shuffle(&mut pos);
        for &q in pos.iter().take(n) {
            let e = [0, 1, 1000, u32::MAX, 0x8000_0000, 0x00FF_00FF];
            timers.push(Timer { pos: q, timeout: *r.pick(&e), elapsed: *r.pick(&e) });
        }
        if n > 1 && r.chance(0.2) { timers[0].pos = [0, 4095][r.idx(2)]; let f = timers[0].pos; let mut seen = false; timers.retain(|t| { let d = t.pos == f && seen; if t.pos == f { seen = true; } !d }); }
    }
    let flags = (r.u64() as u8 & 0x17) | if r.chance(x.ungen) { 8 } else { 0 };
    let ts = [0, 1, 542, u32::MAX, 0x8000_0000, r.u64() as u32][r.idx(6)];
    let lc = [0xFFFF, 0, 0xF1C4, r.u64() as u16][r.idx(4)];
    let mut b = Block { ver, flags, lc, ts, nodes, p1, p2, meta, objs, timers };
    b.normalize();
    b
}

pub fn enc(r: &mut Rng, p: &Pal) -> EncOpts {
    let mut unused = vec![];
    if r.chance(0.25) {
        for _ in 0..1 + r.idx(3) { unused.push(*r.pick(&p.ids)); }
        if r.chance(0.5) { unused.push(p.target_id); }
        if r.chance(0.5) { unused.push(p.newn_id); }
        r.shuffle(&mut unused);
    }
    EncOpts {
        id_mode: r.weighted(&[40, 30, 20, 5, 6]) as u8, unused,
        level: [1, 1, 1, 6, 9, 3][r.idx(6)],
        content_size: r.chance(0.5), checksum: r.chance(0.2), shuffle_vars: r.chance(0.5), seed: r.u64(),
    }
}

/// A box of block positions around an interesting place.
pub fn place(r: &mut Rng, max: [i32; 3]) -> (P, P) {
    let size = [1 + r.i32r(0, max[0] - 1), 1 + r.i32r(0, max[1] - 1), 1 + r.i32r(0, max[2] - 1)];
    let mut lo = [0; 3];
    let mode = r.weighted(&[5, 3, 2, 2]);
    for i in 0..3 {
        lo[i] = match mode {
            0 => -r.i32r(0, size[i]),
            1 => r.i32r(-1900, 1900),
            2 => match r.idx(4) { 0 => -1937, 1 => 1937 - size[i] + 1, 2 => -size[i] / 2, _ => r.i32r(-100, 100) },
            _ => if r.chance(0.5) { 0 } else { -size[i] },
        };
        lo[i] = lo[i].clamp(-1937, 1937 - size[i] + 1);
    }
    (lo, [lo[0] + size[0] - 1, lo[1] + size[1] - 1, lo[2] + size[2] - 1])
}

pub fn clamp_node(p: P) -> P { [p[0].clamp(-31000, 31000), p[1].clamp(-31000, 31000), p[2].clamp(-31000, 31000)] }

/// Two corners of an area related to the box of blocks lo..=hi.
pub fn area(r: &mut Rng, lo: P, hi: P) -> (P, P) {
    let nlo = [lo[0] * 16, lo[1] * 16, lo[2] * 16];
    let nhi = [hi[0] * 16 + 15, hi[1] * 16 + 15, hi[2] * 16 + 15];
    let mut a = [0; 3];
    let mut b = [0; 3];
    let mode = r.weighted(&[8, 6, 4, 3, 3, 2, 2, 3, 3]);
    for i in 0..3 {
        let any = |r: &mut Rng| r.i32r(nlo[i] - 6, nhi[i] + 6);
        let edge = |r: &mut Rng, up: bool| { let k = r.i32r(lo[i], hi[i] + 1) * 16; k + [0, 0, -1, 1, if up { -1 } else { 0 }][r.idx(5)] };
        let (x, y) = match mode {
            0 => (any(r), any(r)),
            1 => (edge(r, false), edge(r, true)),
            2 => { let k = r.i32r(lo[i], hi[i]); let l = r.i32r(k, hi[i]); (k * 16, l * 16 + 15) }          // aligned
            3 => { let x = any(r); (x, x) }                                                             // one node
            4 => (nlo[i] - r.i32r(0, 40), nhi[i] + r.i32r(0, 40)),                                      // everything
            5 => { let x = r.i32r(-31000, 31000); (x, x.saturating_add(r.i32r(0, 500))) }               // anywhere
            6 => (-31000, 31000),
            7 => if r.chance(0.4) { let x = any(r); (x, x + r.i32r(0, 1)) } else { (any(r), any(r)) },  // thin
            _ => { let k = r.i32r(lo[i], hi[i]) * 16; (k + r.i32r(0, 15), k + r.i32r(0, 15)) }          // inside one block
        };
        a[i] = x;
        b[i] = y;
        if r.chance(0.5) { std::mem::swap(&mut a[i], &mut b[i]); }
    }
    (clamp_node(a), clamp_node(b))
}

pub fn offset(r: &mut Rng, lo: P, hi: P) -> P {
    let mut o = [0; 3];
    let mode = r.weighted(&[5, 5, 3, 2, 2, 1]);
    for i in 0..3 {
        let size = (hi[i] - lo[i] + 1) * 16;
        o[i] = match mode {
            0 => r.i32r(-size, size),
            1 => r.i32r(-(hi[i] - lo[i] + 1), hi[i] - lo[i] + 1) * 16,
            2 => r.i32r(-3, 3),
            3 => if r.chance(0.6) { 0 } else { r.i32r(-size, size) },
            4 => [0, 16, -16, 1, -1, 15, -15, 17][r.idx(8)],
            _ => r.i32r(-62000, 62000),
        };
    }
    if mode == 5 && r.chance(0.3) { o[r.idx(3)] = [62000, -62000][r.idx(2)]; }
    o
}

pub struct WorldCfg { pub max: [i32; 3], pub density: f64, pub rich: Rich }

pub fn world(r: &mut Rng, p: &Pal, lo: P, hi: P, c: &WorldCfg) -> World {
    let mut w = World::default();
    // A few templates for large boxes keep generation cheap.
    let vol = (0..3).map(|i| (hi[i] - lo[i] + 1) as usize).product::<usize>();
    let share = if vol > 60 { 0.9 } else { 0.0 };
    let mut made: Vec<Block> = vec![];
    for z in lo[2]..=hi[2] { for y in lo[1]..=hi[1] { for x in lo[0]..=hi[0] {
        if !r.chance(c.density) { continue; }
        let bp = [x, y, z];
        let e = enc(r, p);
        if vol < 60 && r.chance(0.02) {
            let raw = *r.pick(&REAL);
            let mut b = decode(raw).expect("real block");
            if c.rich.stray > 0.0 || b.objs.is_empty() {
                w.cells.insert(key_of(bp), Cell { raw: std::sync::Arc::new(raw.to_vec()), block: Some(std::sync::Arc::new(b)), tag: "good" });
            } else {
                // Its objects belong into this block, not where it was stored.
                for o in &mut b.objs {
                    let n = crate::model::round_pos(o.pos);
                    for i in 0..3 { o.pos[i] += (bp[i] * 16 + n[i].rem_euclid(16) - n[i]) * 10000; }
                }
                w.put(bp, b, &e);
            }
            continue;
        }
        if !made.is_empty() && r.chance(share) {
            let mut b = r.pick(&made).clone();
            b.ts = r.u64() as u32;
            for q in 0..3 { b.p2[r.idx(4096)] = r.u64() as u8; let _ = q; }
            b.objs.clear();
            w.put(bp, b, &e);
        } else {
            let b = block(r, p, bp, &c.rich);
            if made.len() < 40 { made.push(b.clone()); }
            w.put(bp, b, &e);
        }
    } } }
    w
}

/// Fill in a command of the given kind for a world around lo..=hi.
pub fn command(r: &mut Rng, name: &'static str, p: &Pal, lo: P, hi: P) -> Cmd {
    let mut c = Cmd { name, ..Default::default() };
    let need_area = matches!(name, "fill" | "deleteblocks" | "clone");
    let use_area = name != "vacuum" && (need_area || r.chance(0.75));
    if use_area {
        let (a, b) = area(r, lo, hi);
        c.p1 = Some(a);
        c.p2 = Some(b);
        if name != "clone" && r.chance(0.35) { c.invert = true; }
    }
    let pick_node = |r: &mut Rng| match r.weighted(&[7, 1, 1, 1]) { 0 => p.target.clone(), 1 => p.newn.clone(), 2 => name_valid(r, p), _ => name_(r) };
    match name {
        "clone" => c.offset = Some(offset(r, lo, hi)),
        "overlay" => if !c.invert && r.chance(0.5) { c.offset = Some(offset(r, lo, hi)); } else if r.chance(0.1) { c.offset = Some([0, 0, 0]); },
        "replacenodes" => {
            c.node = Some(pick_node(r));
            let mut n = if r.chance(0.7) { p.newn.clone() } else { pick_node(r) };
            while Some(&n) == c.node.as_ref() { n = name_(r); }
            c.new_node = Some(n);
        }
        "fill" => c.new_node = Some(if r.chance(0.5) { p.newn.clone() } else { pick_node(r) }),
        "setparam2" => {
            if !use_area || r.chance(0.5) { c.node = Some(pick_node(r)); }
            c.param2 = Some(if r.chance(0.4) { p.p2 } else if r.chance(0.3) { [0, 255, 128, 127][r.idx(4)] } else { r.u64() as u8 });
        }
        "deletemeta" | "deletetimers" => if r.chance(0.6) { c.node = Some(pick_node(r)); },
        "deleteobjects" => match r.idx(4) {
            0 => {}
            1 => c.obj = Some(if r.chance(0.8) || !valid_name(&p.ents[0]) { p.ent.clone() } else { p.ents[0].clone() }),
            2 => c.items = Some(vec![]),
            _ => {
                let mut v = vec![p.item.clone()];
                for _ in 0..r.idx(3) { let i = r.pick(&p.items).clone(); if valid_name(&i) { v.push(i); } }
                if r.chance(0.12) { for _ in 0..[5, 20, 70, 300][r.idx(4)] { v.push(name_(r)); } }
                if r.chance(0.15) { v.remove(0); if v.is_empty() { v.push(name_(r)); } }
                r.shuffle(&mut v);
                c.items = Some(v);
            }
        },
        "setmetavar" => {
            c.key = Some(if r.chance(0.85) { p.key.clone() } else { ["infotext", "owner", "nosuchkey"][r.idx(3)].into() });
            if r.chance(0.35) { c.delete = true; } else {
                c.value = Some(match r.idx(6) { 0 => "player1".into(), 1 => "a b  c".into(), 2 => "\u{e9}\u{1F600}".into(), 3 => "EndInventory\n".into(), 4 => "x".repeat([40_000, 32_767, 65_535, 65_536, 65_600, 120_000][r.idx(6)]), _ => word(r) });
            }
            let f = pick_node(r); c.nodes = node_list(r, p, f);
        }
        "replaceininv" => {
            c.item = Some(p.item.clone());
            match r.weighted(&[4, 2, 2, 1, 1]) {
                0 => c.new_item = Some(p.new_item.clone()),
                1 => c.delete = true,
                2 => c.delete_meta = true,
                3 => { c.new_item = Some(if r.chance(0.3) { p.item.clone() } else { p.new_item.clone() }); c.delete_meta = true; }
                _ => { c.delete = true; c.delete_meta = true; }
            }
            let f = pick_node(r); c.nodes = node_list(r, p, f);
        }
        _ => {}
    }
    sane(&mut c);
    c
}
fn name_(r: &mut Rng) -> String { name(r) }
fn name_valid(r: &mut Rng, p: &Pal) -> String {
    for _ in 0..8 { let n = r.pick(&p.other); if valid_name(n) { return n.clone(); } }
    "air".into()
}
fn node_list(r: &mut Rng, p: &Pal, first: String) -> Vec<String> {
    if r.chance(0.5) { return vec![]; }
    let mut v = vec![first];
    for _ in 0..r.idx(3) { v.push(name_valid(r, p)); }
    if r.chance(0.12) { for _ in 0..[5, 20, 70, 300][r.idx(4)] { v.push(name_(r)); } }
    r.shuffle(&mut v);
    v
}

/// The destination of a copy must not lie entirely outside the map, and an inverted
/// selection cannot be shifted.
pub fn sane(c: &mut Cmd) {
    if c.invert && c.has_offset() { c.offset = None; }
    if let (Some(o), Some(a), Some(b)) = (c.offset.as_mut(), c.p1, c.p2) {
        for i in 0..3 {
            let out = |d: i32| a[i].max(b[i]) + d < -31000 || a[i].min(b[i]) + d > 31000;
            if out(o[i]) { o[i] = -o[i]; }
            if out(o[i]) { o[i] = 0; }
        }
    }
}
