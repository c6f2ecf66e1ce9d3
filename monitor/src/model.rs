//! Reference model: what the manual says each command does to a map, node by node.
//! Deliberately naive: it works on names and absolute positions, never on IDs,
//! block fragments, caches or processing order.
use crate::cmd::*;
use crate::mb::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum Exp { Bytes(Arc<Vec<u8>>), Logical(Arc<Block>) }
/// What may be stored at a key afterwards.
#[derive(Clone, Default)]
pub struct RowExp { pub any: Vec<Exp>, pub absent: bool, /* anything, as long as the row is there */ pub wild: bool }

pub struct Outcome {
    pub rows: BTreeMap<i64, RowExp>,
    /// Numbers the summary must report (empty if the command prints none).
    pub counts: Vec<u64>,
    /// Admissible range for the number of skipped blocks.
    pub skipped: (u64, u64),
    /// Blocks the command has to look at (0: no progress display required).
    pub selected: u64,
    pub lenient_inv: bool,
    pub stats: BTreeMap<&'static str, u64>,
}

fn one(e: Exp) -> RowExp { RowExp { any: vec![e], ..Default::default() } }
fn gone() -> RowExp { RowExp { absent: true, ..Default::default() } }

pub fn round_pos(p: [i32; 3]) -> P {
    let f = |v: i32| (v as i64 + 5000).div_euclid(10000) as i32;
    [f(p[0]), f(p[1]), f(p[2])]
}

/// The entity name and state of a serialized LuaEntity object.
pub fn lua_entity(o: &Obj) -> Option<(Vec<u8>, Vec<u8>)> {
    if o.ty != 7 || o.data.first() != Some(&1) { return None; }
    let d = &o.data[1..];
    let n = u16::from_be_bytes(d.get(..2)?.try_into().ok()?) as usize;
    let name = d.get(2..2 + n)?.to_vec();
    let d = &d[2 + n..];
    let n = u32::from_be_bytes(d.get(..4)?.try_into().ok()?) as usize;
    Some((name, d.get(4..4usize.checked_add(n)?)?.to_vec()))
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

/// Item name of a dropped item's saved state, in any of the forms Minetest has used.
pub fn dropped_item(state: &[u8]) -> Vec<u8> {
    let s = if state.starts_with(b"return") {
        let (a, b) = (&b"itemstring=\""[..], &b"[\"itemstring\"] = \""[..]);
        match (find(state, a), find(state, b)) {
            (Some(i), _) => &state[i + a.len()..],
            (None, Some(i)) => &state[i + b.len()..],
            _ => return vec![],
        }
    } else { state };
    s.split(|&c| c == b' ' || c == b'"').next().unwrap_or(b"").to_vec()
}

/// Apply replaceininv to one serialized inventory; returns the number of stacks affected.
fn edit_inv(inv: &mut Vec<u8>, item: &[u8], new: Option<&[u8]>, delete: bool, del_meta: bool) -> u64 {
    let mut n = 0;
    let mut out = vec![];
    for line in inv.split_inclusive(|&c| c == b'\n') {
        let l = &line[..line.len() - 1];
        let f: Vec<&[u8]> = l.splitn(5, |&c| c == b' ').collect();
        if f[0] == b"Item" && f.len() >= 2 && f[1] == item {
            n += 1;
            if delete { out.extend_from_slice(b"Empty\n"); continue; }
            let (count, wear) = (f.get(2).copied().unwrap_or(b"1"), f.get(3).copied().unwrap_or(b"0"));
            out.extend_from_slice(b"Item ");
            out.extend_from_slice(new.unwrap_or(item));
            let meta = if del_meta { None } else { f.get(4) };
            if count != b"1" || wear != b"0" || meta.is_some() { out.push(b' '); out.extend_from_slice(count); }
            if wear != b"0" || meta.is_some() { out.push(b' '); out.extend_from_slice(wear); }
            if let Some(m) = meta { out.push(b' '); out.extend_from_slice(m); }
            out.push(b'\n');
        } else { out.extend_from_slice(line); }
    }
    *inv = out;
    n
}

/// Inventory with every stack in one spelling (count 1, wear 0 and no metadata omitted).
pub fn canon_inv(inv: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for line in inv.split_inclusive(|&c| c == b'\n') {
        let l = line.strip_suffix(b"\n").unwrap_or(line);
        let f: Vec<&[u8]> = l.splitn(5, |&c| c == b' ').collect();
        if f[0] == b"Item" && f.len() >= 2 {
            let mut v = f.clone();
            if v.len() == 5 && v[4].is_empty() { v.pop(); }
            if v.len() == 4 && v[3] == b"0" { v.pop(); }
            if v.len() == 3 && v[2] == b"1" { v.pop(); }
            out.extend_from_slice(&v.join(&b' '));
            out.push(b'\n');
        } else { out.extend_from_slice(line); }
    }
    out
}

fn in_limits(b: P) -> bool { b.iter().all(|c| (-1937..=1937).contains(c)) }

fn has_name_bytes(raw: &[u8], names: &[Vec<u8>]) -> bool {
    names.iter().any(|n| {
        let mut p = (n.len() as u16).to_be_bytes().to_vec();
        p.extend_from_slice(n);
        find(raw, &p).is_some()
    })
}

pub fn apply(c: &Cmd, main: &World, src: Option<&World>) -> Outcome {
    let mut o = Outcome { rows: BTreeMap::new(), counts: vec![], skipped: (0, 0), selected: 0, lenient_inv: c.name == "replaceininv", stats: BTreeMap::new() };
    for (k, cell) in &main.cells { o.rows.insert(*k, one(Exp::Bytes(cell.raw.clone()))); }
    match c.name {
        "vacuum" => {}
        "deleteblocks" => {
            let s = c.sel();
            let mut n = 0;
            for k in main.cells.keys() { if s.all_of_block(pos_of(*k)) { o.rows.insert(*k, gone()); n += 1; } }
            o.selected = n;
            o.stats.insert("blocks_deleted", n);
            o.stats.insert("blocks_kept", main.cells.len() as u64 - n);
        }
        "overlay" if !c.has_offset() => overlay_same(c, main, src.unwrap(), &mut o),
        "overlay" | "clone" => copy_shifted(c, main, if c.name == "clone" { main } else { src.unwrap() }, &mut o),
        _ => edit(c, main, &mut o),
    }
    o
}

fn edit(c: &Cmd, main: &World, o: &mut Outcome) {
    let s = c.sel();
    let id = |x: &Option<String>| x.as_ref().map(|s| intern(s.as_bytes()));
    let (node, new_node) = (id(&c.node), id(&c.new_node));
    let nodes: Vec<Name> = c.nodes.iter().map(|n| intern(n.as_bytes())).collect();
    let by_name = c.name == "replacenodes";
    // Blocks of version <= 28 may be skipped without decoding if a searched name does
    // not occur in them.
    let search: Vec<Vec<u8>> = match c.name {
        "deleteobjects" => if c.items.is_some() { vec![b"__builtin:item".to_vec()] } else { c.obj.iter().map(|s| s.as_bytes().to_vec()).collect() },
        _ => c.node.iter().chain(c.nodes.iter()).map(|s| s.as_bytes().to_vec()).collect(),
    };
    let mut total = 0u64;
    let mut total2 = 0u64;
    let mut memo: std::collections::HashMap<*const Block, (Arc<Block>, u64, u64)> = Default::default();
    for (k, cell) in &main.cells {
        let bp = pos_of(*k);
        if !s.any_of_block(bp) { *o.stats.entry("blocks_outside").or_default() += 1; continue; }
        let examined = search.is_empty() || cell.raw.first().is_some_and(|&v| v > 28) || cell.raw.is_empty() || has_name_bytes(&cell.raw, &search);
        if examined { o.selected += 1; }
        let Some(b) = &cell.block else {
            if cell.tag != "gray" { o.skipped.1 += 1; if examined { o.skipped.0 += 1; } }
            else { o.skipped.1 += 1; o.rows.get_mut(k).unwrap().wild = true; }
            continue;
        };
        *o.stats.entry(if s.all_of_block(bp) { "blocks_whole" } else { "blocks_partial" }).or_default() += 1;
        // Equal blocks that are selected as a whole have equal results.
        let same = (main.cells.len() > 20_000 && s.all_of_block(bp) && c.name != "deleteobjects").then(|| Arc::as_ptr(b));
        if let Some((nb, n, x)) = same.and_then(|k| memo.get(&k)) {
            total += n;
            total2 += x;
            if *n > 0 { *o.stats.entry("blocks_edited").or_default() += 1; }
            let mut exp = vec![Exp::Logical(Arc::clone(nb))];
            if !b.generated() && *n > 0 { exp.push(Exp::Bytes(cell.raw.clone())); }
            o.rows.insert(*k, RowExp { any: exp, ..Default::default() });
            continue;
        }
        let mut nb = (**b).clone();
        let at = |i: usize| s.has(node_pos(bp, i));
        let mut n = 0u64;
        let total2_before = total2;
        match c.name {
            "replacenodes" => for i in 0..4096 { if nb.nodes[i] == node.unwrap() && at(i) { nb.nodes[i] = new_node.unwrap(); n += 1; } },
            "fill" => if b.generated() { for i in 0..4096 { if at(i) { nb.nodes[i] = new_node.unwrap(); n += 1; } } },
            "setparam2" => for i in 0..4096 {
                if node.is_none_or(|x| nb.nodes[i] == x) && at(i) { nb.p2[i] = c.param2.unwrap(); n += 1; }
            },
            "deletemeta" => {
                let keep: Vec<u16> = b.meta.keys().copied().filter(|&i| !(at(i as usize) && node.is_none_or(|x| b.nodes[i as usize] == x))).collect();
                n = (b.meta.len() - keep.len()) as u64;
                nb.meta.retain(|i, _| keep.contains(i));
            }
            "deletetimers" => {
                nb.timers.retain(|t| !(at(t.pos as usize) && node.is_none_or(|x| b.nodes[t.pos as usize] == x)));
                n = (b.timers.len() - nb.timers.len()) as u64;
            }
            "deleteobjects" => {
                nb.objs.retain(|x| {
                    if !s.has(round_pos(x.pos)) { return true; }
                    if c.obj.is_none() && c.items.is_none() { return false; }
                    let Some((name, state)) = lua_entity(x) else { return true };
                    if let Some(items) = &c.items {
                        if name != b"__builtin:item" { return true; }
                        if items.is_empty() { return false; }
                        let it = dropped_item(&state);
                        !items.iter().any(|i| i.as_bytes() == it)
                    } else { name != c.obj.as_ref().unwrap().as_bytes() }
                });
                n = (b.objs.len() - nb.objs.len()) as u64;
            }
            "setmetavar" => for (&i, m) in nb.meta.iter_mut() {
                if !at(i as usize) || !(nodes.is_empty() || nodes.contains(&b.nodes[i as usize])) { continue; }
                let key = c.key.as_ref().unwrap().as_bytes();
                if !m.vars.contains_key(key) { continue; }
                n += 1;
                if c.delete { m.vars.remove(key); } else { m.vars.get_mut(key).unwrap().0 = c.value.clone().unwrap().into_bytes(); }
            },
            "replaceininv" => for (&i, m) in nb.meta.iter_mut() {
                if !at(i as usize) || !(nodes.is_empty() || nodes.contains(&b.nodes[i as usize])) { continue; }
                let x = edit_inv(&mut m.inv, c.item.as_ref().unwrap().as_bytes(), c.new_item.as_ref().map(|s| s.as_bytes()), c.delete, c.delete_meta);
                n += x;
                total2 += (x > 0) as u64;
            },
            _ => unreachable!(),
        }
        total += n;
        if n > 0 { *o.stats.entry("blocks_edited").or_default() += 1; }
        let nb = Arc::new(nb);
        if let Some(k) = same { memo.insert(k, (nb.clone(), n, total2 - total2_before)); }
        let mut exp = vec![Exp::Logical(nb)];
        // The manual says nothing about other commands on blocks that are stored but
        // not generated; leaving them alone is as good as editing them.
        if !b.generated() && n > 0 { exp.push(Exp::Bytes(cell.raw.clone())); }
        if n == 0 && !by_name { *o.stats.entry("blocks_selected_unchanged").or_default() += 1; }
        o.rows.insert(*k, RowExp { any: exp, ..Default::default() });
    }
    o.counts = if c.name == "replaceininv" { vec![total, total2] } else { vec![total] };
    o.stats.insert("edits", total);
}

/// Take node i's content from (sb, j).
fn copy_node(dst: &mut Block, i: usize, sb: &Block, j: usize) {
    dst.nodes[i] = sb.nodes[j];
    dst.p1[i] = sb.p1[j];
    dst.p2[i] = sb.p2[j];
    match sb.meta.get(&(j as u16)) {
        Some(m) => { dst.meta.insert(i as u16, m.clone()); }
        None => { dst.meta.remove(&(i as u16)); }
    }
}

/// A damaged block that still says, readably, that it is a generated block of a supported version.
fn plainly_damaged(c: &Cell) -> bool {
    if c.block.is_some() || c.tag != "bad" || c.raw.len() < 2 { return false; }
    match c.raw[0] {
        25..=28 => c.raw[1] & 8 == 0,
        29 => crate::ffi::zstd_decompress(&c.raw[1..], 64 << 20).is_ok_and(|(d, _)| d.first().is_some_and(|f| f & 8 == 0)),
        _ => false,
    }
}

fn overlay_same(c: &Cmd, main: &World, src: &World, o: &mut Outcome) {
    let s = c.sel();
    for (k, sc) in &src.cells {
        let bp = pos_of(*k);
        if !s.any_of_block(bp) { *o.stats.entry("src_outside").or_default() += 1; continue; }
        o.selected += 1;
        let dst = main.cells.get(k);
        let whole = s.all_of_block(bp);
        match &sc.block {
            Some(sb) if !sb.generated() => { *o.stats.entry("src_not_generated").or_default() += 1; }
            Some(sb) if whole => {
                *o.stats.entry(if dst.is_some() { "src_whole_replacing" } else { "src_whole_added" }).or_default() += 1;
                let _ = sb;
                o.rows.insert(*k, one(Exp::Bytes(sc.raw.clone())));
            }
            Some(sb) => {
                let Some(d) = dst else { *o.stats.entry("src_partial_no_dst").or_default() += 1; continue };
                let Some(db) = &d.block else { o.skipped.1 += 1; if plainly_damaged(d) { o.skipped.0 += 1; } continue };
                if !db.generated() { *o.stats.entry("src_partial_dst_not_generated").or_default() += 1; continue; }
                *o.stats.entry("src_partial").or_default() += 1;
                let mut nb = (**db).clone();
                for i in 0..4096 { if s.has(node_pos(bp, i)) { copy_node(&mut nb, i, sb, i); } }
                // "objects/entities and node timers may also be copied"
                let mut nb2 = nb.clone();
                nb2.ver = sb.ver; nb2.flags = sb.flags; nb2.lc = sb.lc; nb2.ts = sb.ts;
                nb2.objs = sb.objs.clone(); nb2.timers = sb.timers.clone();
                let mut any = vec![Exp::Logical(Arc::new(nb))];
                if c.invert { any.push(Exp::Logical(Arc::new(nb2))); }
                o.rows.insert(*k, RowExp { any, ..Default::default() });
            }
            None => {
                // Undecodable source: a whole block may be copied unread, or skipped.
                *o.stats.entry("src_damaged").or_default() += 1;
                o.skipped.1 += 1;
                if !whole && plainly_damaged(sc) && dst.and_then(|d| d.block.as_ref()).is_some_and(|b| b.generated()) { o.skipped.0 += 1; }
                if whole {
                    let r = o.rows.entry(*k).or_insert_with(gone);
                    r.any.push(Exp::Bytes(sc.raw.clone()));
                }
            }
        }
    }
}

fn copy_shifted(c: &Cmd, main: &World, src: &World, o: &mut Outcome) {
    let ofs = c.offset.unwrap();
    let t = c.target();
    for (k, cell) in &main.cells {
        let bp = pos_of(*k);
        if !t.any_of_block(bp) { *o.stats.entry("blocks_outside").or_default() += 1; continue; }
        o.selected += 1;
        let Some(db) = &cell.block else { o.skipped.1 += 1; if plainly_damaged(cell) { o.skipped.0 += 1; } continue };
        if !db.generated() { *o.stats.entry("dst_not_generated").or_default() += 1; continue; }
        let mut nb = (**db).clone();
        let mut n = 0u64;
        let mut last: Option<(P, Option<&Block>)> = None;
        for i in 0..4096 {
            let p = node_pos(bp, i);
            if !t.has(p) { continue; }
            let q = sub(p, ofs);
            let qb = block_of(q);
            if last.is_none_or(|l| l.0 != qb) { last = Some((qb, if in_limits(qb) { src.generated(qb) } else { None })); }
            if let Some(sb) = last.unwrap().1 { copy_node(&mut nb, i, sb, index_of(q)); n += 1; }
        }
        *o.stats.entry("nodes_copied").or_default() += n;
        *o.stats.entry(if n > 0 { "dst_blocks_written" } else { "dst_blocks_no_source" }).or_default() += 1;
        o.rows.insert(*k, one(Exp::Logical(Arc::new(nb))));
    }
}

#[derive(Clone, Debug)]
pub struct Diff { pub key: i64, pub kind: &'static str, pub inside: bool, pub detail: String }

fn hexs(b: &[u8]) -> String {
    let s: String = b.iter().take(48).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 48 { format!("{s}... ({} bytes)", b.len()) } else { s }
}

pub fn diff_blocks(key: i64, exp: &Block, got: &Block, t: &Sel, lenient_inv: bool) -> Vec<Diff> {
    let bp = pos_of(key);
    let mut v = vec![];
    let mut e = exp.clone();
    let mut g = got.clone();
    e.normalize();
    g.normalize();
    let mut push = |kind: &'static str, inside: bool, detail: String| v.push(Diff { key, kind, inside, detail });
    if e.ver != g.ver { push("version", false, format!("{} instead of {}", g.ver, e.ver)); }
    if e.flags != g.flags { push("flags", false, format!("{:#x} instead of {:#x}", g.flags, e.flags)); }
    if e.lc != g.lc { push("lighting", false, format!("{:#x} instead of {:#x}", g.lc, e.lc)); }
    if e.ts != g.ts { push("timestamp", false, format!("{} instead of {}", g.ts, e.ts)); }
    let mut cnt = [0u64; 6];
    let mut first: [Option<String>; 6] = Default::default();
    for i in 0..4096 {
        let w = |a: usize| a * 2 + t.has(node_pos(bp, i)) as usize;
        let p = node_pos(bp, i);
        if e.nodes[i] != g.nodes[i] { let x = w(0); cnt[x] += 1; first[x].get_or_insert_with(|| format!("{p:?}: {} instead of {}", name_str(g.nodes[i]), name_str(e.nodes[i]))); }
        if e.p1[i] != g.p1[i] { let x = w(1); cnt[x] += 1; first[x].get_or_insert_with(|| format!("{p:?}: {} instead of {}", g.p1[i], e.p1[i])); }
        if e.p2[i] != g.p2[i] { let x = w(2); cnt[x] += 1; first[x].get_or_insert_with(|| format!("{p:?}: {} instead of {}", g.p2[i], e.p2[i])); }
    }
    for x in 0..6 {
        if let Some(f) = &first[x] { push(["nodes", "param1", "param2"][x / 2], x % 2 == 1, format!("{} differ, first at {f}", cnt[x])); }
    }
    let keys: std::collections::BTreeSet<u16> = e.meta.keys().chain(g.meta.keys()).copied().collect();
    for k in keys {
        let p = node_pos(bp, k as usize);
        let ins = t.has(p);
        match (e.meta.get(&k), g.meta.get(&k)) {
            (Some(_), None) => push("meta", ins, format!("metadata at {p:?} lost")),
            (None, Some(_)) => push("meta", ins, format!("metadata at {p:?} should not exist")),
            (Some(a), Some(b)) if a != b => {
                let vk: std::collections::BTreeSet<&Vec<u8>> = a.vars.keys().chain(b.vars.keys()).collect();
                for x in vk {
                    if a.vars.get(x) != b.vars.get(x) {
                        let f = |o: Option<&(Vec<u8>, bool)>| o.map_or("nothing".into(), |(v, p)| format!("\"{}\"{}", hexs(v), if *p { " (private)" } else { "" }));
                        push("meta", ins, format!("variable {} at {p:?}: {} instead of {}", hexs(x), f(b.vars.get(x)), f(a.vars.get(x))));
                    }
                }
                if a.inv != b.inv && !(lenient_inv && canon_inv(&a.inv) == canon_inv(&b.inv)) {
                    push("meta", ins, format!("inventory at {p:?}: {:?} instead of {:?}", String::from_utf8_lossy(&b.inv).chars().take(600).collect::<String>(), String::from_utf8_lossy(&a.inv).chars().take(600).collect::<String>()));
                }
            }
            _ => {}
        }
    }
    if e.objs != g.objs {
        let i = e.objs.iter().zip(&g.objs).position(|(a, b)| a != b).unwrap_or(e.objs.len().min(g.objs.len()));
        let strays: Vec<&Obj> = e.objs.iter().filter(|o| !g.objs.contains(o)).chain(g.objs.iter().filter(|o| !e.objs.contains(o))).collect();
        let ins = !strays.is_empty() && strays.iter().all(|o| t.has(round_pos(o.pos)));
        push("objects", ins, format!("{} objects instead of {}, first difference at #{i}: {:?} instead of {:?}", g.objs.len(), e.objs.len(),
            g.objs.get(i).map(|o| (o.ty, o.pos, hexs(&o.data))), e.objs.get(i).map(|o| (o.ty, o.pos, hexs(&o.data)))));
    }
    if e.timers != g.timers {
        let i = e.timers.iter().zip(&g.timers).position(|(a, b)| a != b).unwrap_or(e.timers.len().min(g.timers.len()));
        let strays: Vec<&Timer> = e.timers.iter().filter(|o| !g.timers.contains(o)).chain(g.timers.iter().filter(|o| !e.timers.contains(o))).collect();
        let ins = !strays.is_empty() && strays.iter().all(|o| t.has(node_pos(bp, o.pos as usize)));
        push("timers", ins, format!("{} timers instead of {}, first difference at #{i}: {:?} instead of {:?}", g.timers.len(), e.timers.len(), g.timers.get(i), e.timers.get(i)));
    }
    v
}

/// All deviations of `after` from the outcome.
pub fn compare(o: &Outcome, after: &BTreeMap<i64, Vec<u8>>, t: &Sel) -> Vec<Diff> {
    let mut v = vec![];
    for (k, r) in &o.rows {
        let bp = pos_of(*k);
        let Some(got) = after.get(k) else {
            if !r.absent { v.push(Diff { key: *k, kind: "row-missing", inside: t.any_of_block(bp), detail: format!("block {bp:?} vanished") }); }
            continue;
        };
        if r.wild { continue; }
        if r.any.is_empty() { v.push(Diff { key: *k, kind: "row-extra", inside: t.any_of_block(bp), detail: format!("block {bp:?} should not be stored") }); continue; }
        if r.any.iter().any(|e| matches!(e, Exp::Bytes(b) if **b == *got)) { continue; }
        let mut best: Option<Vec<Diff>> = None;
        let mut dec: Option<Result<Block, String>> = None;
        for e in &r.any {
            let d = match e {
                Exp::Bytes(b) => vec![Diff { key: *k, kind: "bytes", inside: t.any_of_block(bp),
                    detail: format!("block {bp:?} should have been left as it was ({} bytes), now {} bytes: {}", b.len(), got.len(), hexs(got)) }],
                Exp::Logical(b) => match dec.get_or_insert_with(|| decode(got)) {
                    Err(m) => vec![Diff { key: *k, kind: "malformed", inside: true, detail: format!("block {bp:?} stored malformed: {m}") }],
                    Ok(g) => diff_blocks(*k, b, g, t, o.lenient_inv),
                },
            };
            if d.is_empty() { best = Some(d); break; }
            if best.as_ref().is_none_or(|x| d.len() < x.len()) { best = Some(d); }
        }
        v.extend(best.unwrap());
    }
    for k in after.keys() {
        if !o.rows.contains_key(k) { let bp = pos_of(*k); v.push(Diff { key: *k, kind: "row-extra", inside: t.any_of_block(bp), detail: format!("block {bp:?} should not be stored") }); }
    }
    v
}
