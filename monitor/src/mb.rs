//! Independent mapblock codec, written from Minetest's world_format.txt. The decoder
//! is strict: it accepts only what Minetest itself would write, plus unused name IDs
//! and gaps in the ID numbering.
use crate::ffi;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::sync::{OnceLock, RwLock};

pub type Name = u32;

struct Interner { map: HashMap<Vec<u8>, Name>, list: Vec<Vec<u8>> }
fn interner() -> &'static RwLock<Interner> {
    static I: OnceLock<RwLock<Interner>> = OnceLock::new();
    I.get_or_init(|| RwLock::new(Interner { map: HashMap::new(), list: vec![] }))
}
pub fn intern(b: &[u8]) -> Name {
    if let Some(&n) = interner().read().unwrap().map.get(b) { return n; }
    let mut w = interner().write().unwrap();
    if let Some(&n) = w.map.get(b) { return n; }
    let n = w.list.len() as Name;
    w.list.push(b.to_vec());
    w.map.insert(b.to_vec(), n);
    n
}
pub fn name_bytes(n: Name) -> Vec<u8> { interner().read().unwrap().list[n as usize].clone() }
pub fn name_str(n: Name) -> String { String::from_utf8_lossy(&name_bytes(n)).into_owned() }

pub const EMPTY_INV: &[u8] = b"EndInventory\n";

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Meta { pub vars: BTreeMap<Vec<u8>, (Vec<u8>, bool)>, pub inv: Vec<u8> }
impl Meta {
    pub fn is_empty(&self) -> bool { self.vars.is_empty() && self.inv == EMPTY_INV }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Obj { pub ty: u8, pub pos: [i32; 3], pub data: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
pub struct Timer { pub pos: u16, pub timeout: u32, pub elapsed: u32 }

#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub ver: u8,
    pub flags: u8,
    pub lc: u16,
    pub ts: u32,
    pub nodes: Vec<Name>,
    pub p1: Vec<u8>,
    pub p2: Vec<u8>,
    pub meta: BTreeMap<u16, Meta>,
    pub objs: Vec<Obj>,
    pub timers: Vec<Timer>,
}

impl Block {
    pub fn generated(&self) -> bool { self.flags & 8 == 0 }
    /// Canonical form for comparisons: drop empty metadata, and private marks and
    /// lighting masks that the version cannot store.
    pub fn normalize(&mut self) {
        self.meta.retain(|_, m| !m.is_empty());
        if self.ver < 28 { for m in self.meta.values_mut() { for v in m.vars.values_mut() { v.1 = false; } } }
        if self.ver < 27 { self.lc = 0xFFFF; }
    }
}

#[derive(Clone, Debug)]
pub struct EncOpts {
    /// 0: first appearance (as Minetest does), 1: shuffled, 2: with gaps.
    pub id_mode: u8,
    pub unused: Vec<Name>,
    pub level: i32,
    pub content_size: bool,
    pub checksum: bool,
    /// Serialize empty metadata entries too (Minetest does not, other tools do).
    pub shuffle_vars: bool,
    pub seed: u64,
}
impl Default for EncOpts {
    fn default() -> Self {
        EncOpts { id_mode: 0, unused: vec![], level: 1, content_size: false, checksum: false, shuffle_vars: false, seed: 0 }
    }
}

fn p16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_be_bytes()); }
fn p32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_be_bytes()); }
fn s16(v: &mut Vec<u8>, s: &[u8]) { p16(v, u16::try_from(s.len()).expect("string16")); v.extend_from_slice(s); }
fn s32(v: &mut Vec<u8>, s: &[u8]) { p32(v, s.len() as u32); v.extend_from_slice(s); }

/// The pieces of an encoded block, so that the corruptor can damage one of them.
pub struct Parts {
    pub ver: u8, pub flags: u8, pub lc: u16, pub ts: u32, pub cw: u8, pub pw: u8,
    pub nimap_ver: u8, pub nimap: Vec<(u16, Vec<u8>)>,
    pub node_data: Vec<u8>, pub meta: Vec<u8>, pub objs: Vec<u8>, pub timers: Vec<u8>, pub tail: Vec<u8>,
}

pub fn parts(b: &Block, o: &EncOpts) -> Parts {
    let mut r = Rng::new(o.seed);
    // Name table.
    let mut order: Vec<Name> = vec![];
    let mut seen: HashMap<Name, ()> = HashMap::new();
    let mut last = u32::MAX;
    for &n in &b.nodes {
        if n == last { continue; }
        last = n;
        if seen.insert(n, ()).is_none() { order.push(n); }
    }
    for &n in &o.unused { if seen.insert(n, ()).is_none() { order.push(n); } }
    if o.id_mode >= 1 { r.shuffle(&mut order); }
    let mut nimap = vec![];
    let mut ids: HashMap<Name, u16> = HashMap::new();
    let mut next = if o.id_mode == 2 { r.below(3) as u16 } else { 0 };
    for &n in &order {
        ids.insert(n, next);
        nimap.push((next, name_bytes(n)));
        next += 1;
        if o.id_mode == 2 && r.chance(0.3) { next += r.below(4) as u16 + 1; }
    }
    if o.id_mode == 3 {
        // Any 16-bit numbers, the highest one included.
        let mut pool: Vec<u16> = (0..=65535).collect();
        r.shuffle(&mut pool);
        if !pool[..order.len()].contains(&65535) { pool[r.idx(order.len())] = 65535; }
        for (i, &n) in order.iter().enumerate() { ids.insert(n, pool[i]); nimap[i].0 = pool[i]; }
    }
    if o.id_mode == 4 {
        // All numbers high: in the upper half, or close to the end.
        let base = [32_768, 32_767, 40_000, 60_000, 61_000][r.idx(5)] + r.below(30) as usize;
        let room = 65_535 - base - order.len();
        let mut at = base + if r.chance(0.5) { r.idx(room + 1) } else { 0 };
        for (i, &n) in order.iter().enumerate() { ids.insert(n, at as u16); nimap[i].0 = at as u16; at += 1; }
    }
    if o.id_mode >= 1 && r.chance(0.5) { r.shuffle(&mut nimap); }
    let mut nd = Vec::with_capacity(16384);
    let (mut ln, mut lid) = (u32::MAX, 0u16);
    for &n in &b.nodes {
        if n != ln { ln = n; lid = ids[&n]; }
        nd.extend_from_slice(&lid.to_be_bytes());
    }
    nd.extend_from_slice(&b.p1);
    nd.extend_from_slice(&b.p2);
    // Metadata.
    let mut m = vec![];
    if b.meta.is_empty() { m.push(0); } else {
        let mv = if b.ver >= 28 { 2 } else { 1 };
        m.push(mv);
        p16(&mut m, b.meta.len() as u16);
        for (&pos, e) in &b.meta {
            p16(&mut m, pos);
            p32(&mut m, e.vars.len() as u32);
            let mut vs: Vec<_> = e.vars.iter().collect();
            if o.shuffle_vars { r.shuffle(&mut vs); }
            for (k, (v, p)) in vs {
                s16(&mut m, k);
                s32(&mut m, v);
                if mv >= 2 { m.push(*p as u8); }
            }
            m.extend_from_slice(&e.inv);
        }
    }
    let mut ob = vec![0];
    p16(&mut ob, b.objs.len() as u16);
    for x in &b.objs {
        ob.push(x.ty);
        for c in x.pos { p32(&mut ob, c as u32); }
        s16(&mut ob, &x.data);
    }
    let mut ti = vec![10];
    p16(&mut ti, b.timers.len() as u16);
    for t in &b.timers { p16(&mut ti, t.pos); p32(&mut ti, t.timeout); p32(&mut ti, t.elapsed); }
    Parts { ver: b.ver, flags: b.flags, lc: b.lc, ts: b.ts, cw: 2, pw: 2, nimap_ver: 0, nimap,
        node_data: nd, meta: m, objs: ob, timers: ti, tail: vec![] }
}

fn nimap_bytes(p: &Parts) -> Vec<u8> {
    let mut v = vec![p.nimap_ver];
    p16(&mut v, p.nimap.len() as u16);
    for (id, n) in &p.nimap { p16(&mut v, *id); s16(&mut v, n); }
    v
}

pub fn join(p: &Parts, o: &EncOpts) -> Vec<u8> {
    let mut out = vec![p.ver];
    if p.ver >= 29 {
        let mut d = vec![p.flags];
        p16(&mut d, p.lc);
        p32(&mut d, p.ts);
        d.extend(nimap_bytes(p));
        d.push(p.cw);
        d.push(p.pw);
        for s in [&p.node_data, &p.meta, &p.objs, &p.timers, &p.tail] { d.extend_from_slice(s); }
        out.extend(ffi::zstd_compress(&d, o.level, o.content_size, o.checksum));
    } else {
        out.push(p.flags);
        if p.ver >= 27 { p16(&mut out, p.lc); }
        out.push(p.cw);
        out.push(p.pw);
        out.extend(ffi::zlib_compress(&p.node_data, o.level));
        out.extend(ffi::zlib_compress(&p.meta, o.level));
        out.extend_from_slice(&p.objs);
        p32(&mut out, p.ts);
        out.extend(nimap_bytes(p));
        out.extend_from_slice(&p.timers);
        out.extend_from_slice(&p.tail);
    }
    out
}

pub fn encode(b: &Block, o: &EncOpts) -> Vec<u8> { join(&parts(b, o), o) }

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], String> {
        if self.0.len() - self.1 < n { return Err(format!("truncated in {what}")); }
        let s = &self.0[self.1..self.1 + n];
        self.1 += n;
        Ok(s)
    }
    fn u8(&mut self, w: &str) -> Result<u8, String> { Ok(self.take(1, w)?[0]) }
    fn u16(&mut self, w: &str) -> Result<u16, String> { Ok(u16::from_be_bytes(self.take(2, w)?.try_into().unwrap())) }
    fn u32(&mut self, w: &str) -> Result<u32, String> { Ok(u32::from_be_bytes(self.take(4, w)?.try_into().unwrap())) }
    fn s16(&mut self, w: &str) -> Result<&'a [u8], String> { let n = self.u16(w)?; self.take(n as usize, w) }
    fn s32(&mut self, w: &str) -> Result<&'a [u8], String> { let n = self.u32(w)?; self.take(n as usize, w) }
    fn rest(&self) -> &'a [u8] { &self.0[self.1..] }
}

fn rd_nimap(r: &mut Rd) -> Result<BTreeMap<u16, Name>, String> {
    if r.u8("nimap")? != 0 { return Err("nimap version".into()); }
    let n = r.u16("nimap")?;
    let mut m = BTreeMap::new();
    let mut names = HashMap::new();
    for _ in 0..n {
        let id = r.u16("nimap")?;
        let nm = intern(r.s16("nimap")?);
        if m.insert(id, nm).is_some() { return Err(format!("duplicate name id {id}")); }
        if names.insert(nm, ()).is_some() { return Err(format!("duplicate name {:?} in name table", name_str(nm))); }
    }
    Ok(m)
}

fn rd_nodes(d: &[u8]) -> (Vec<u16>, Vec<u8>, Vec<u8>) {
    (d[..8192].chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect(), d[8192..12288].to_vec(), d[12288..16384].to_vec())
}

fn rd_meta(r: &mut Rd, ver: u8) -> Result<BTreeMap<u16, Meta>, String> {
    let v = r.u8("meta version")?;
    let mut m = BTreeMap::new();
    if v == 0 { return Ok(m); }
    if v != if ver >= 28 { 2 } else { 1 } { return Err(format!("metadata version {v} in block version {ver}")); }
    let n = r.u16("meta count")?;
    if n == 0 { return Err("metadata version nonzero but list is empty".into()); }
    let mut last = -1i32;
    for _ in 0..n {
        let pos = r.u16("meta pos")?;
        if pos >= 4096 { return Err(format!("metadata position {pos} outside block")); }
        if pos as i32 <= last { return Err(format!("metadata positions not ascending ({last} then {pos})")); }
        last = pos as i32;
        let nv = r.u32("meta var count")?;
        let mut e = Meta::default();
        for _ in 0..nv {
            let k = r.s16("meta key")?.to_vec();
            let val = r.s32("meta value")?.to_vec();
            let p = if v >= 2 { match r.u8("meta private")? { 0 => false, 1 => true, x => return Err(format!("private flag {x}")) } } else { false };
            if e.vars.insert(k, (val, p)).is_some() { return Err("duplicate metadata variable".into()); }
        }
        // Inventory: lines up to and including "EndInventory".
        let rest = r.rest();
        let mut i = 0;
        loop {
            let Some(nl) = rest[i..].iter().position(|&c| c == b'\n') else { return Err("unterminated inventory".into()) };
            let line = &rest[i..i + nl];
            i += nl + 1;
            if line == b"EndInventory" { break; }
        }
        e.inv = r.take(i, "inventory")?.to_vec();
        m.insert(pos, e);
    }
    Ok(m)
}

fn rd_objs(r: &mut Rd) -> Result<Vec<Obj>, String> {
    if r.u8("objects version")? != 0 { return Err("objects version".into()); }
    let n = r.u16("objects count")?;
    let mut v = vec![];
    for _ in 0..n {
        let ty = r.u8("object")?;
        let pos = [r.u32("object")? as i32, r.u32("object")? as i32, r.u32("object")? as i32];
        v.push(Obj { ty, pos, data: r.s16("object data")?.to_vec() });
    }
    Ok(v)
}

fn rd_timers(r: &mut Rd) -> Result<Vec<Timer>, String> {
    if r.u8("timer size")? != 10 { return Err("timer size".into()); }
    let n = r.u16("timer count")?;
    let mut v = vec![];
    for _ in 0..n {
        let pos = r.u16("timer")?;
        if pos >= 4096 { return Err(format!("timer position {pos} outside block")); }
        v.push(Timer { pos, timeout: r.u32("timer")?, elapsed: r.u32("timer")? });
    }
    Ok(v)
}

const CAP: usize = 256 << 20;

/// Strict decoder; Err names the first rule broken.
pub fn decode(raw: &[u8]) -> Result<Block, String> {
    let mut r = Rd(raw, 0);
    let ver = r.u8("version")?;
    if !(25..=29).contains(&ver) { return Err(format!("version {ver}")); }
    let (flags, lc, ts, nimap, nodes, p1, p2, meta, objs, timers);
    if ver >= 29 {
        let (d, used) = ffi::zstd_decompress(r.rest(), CAP)?;
        if used != raw.len() - 1 { return Err("bytes after zstd frame".into()); }
        let mut q = Rd(&d, 0);
        flags = q.u8("flags")?;
        lc = q.u16("lighting")?;
        ts = q.u32("timestamp")?;
        nimap = rd_nimap(&mut q)?;
        if q.u8("cw")? != 2 || q.u8("pw")? != 2 { return Err("content/params width".into()); }
        (nodes, p1, p2) = rd_nodes(q.take(16384, "node data")?);
        meta = rd_meta(&mut q, ver)?;
        objs = rd_objs(&mut q)?;
        timers = rd_timers(&mut q)?;
        if !q.rest().is_empty() { return Err(format!("{} bytes after node timers", q.rest().len())); }
    } else {
        flags = r.u8("flags")?;
        lc = if ver >= 27 { r.u16("lighting")? } else { 0xFFFF };
        if r.u8("cw")? != 2 || r.u8("pw")? != 2 { return Err("content/params width".into()); }
        let (d, used) = ffi::zlib_decompress(r.rest(), CAP)?;
        if d.len() != 16384 { return Err(format!("node data has {} bytes", d.len())); }
        (nodes, p1, p2) = rd_nodes(&d);
        r.1 += used;
        let (d, used) = ffi::zlib_decompress(r.rest(), CAP)?;
        r.1 += used;
        let mut q = Rd(&d, 0);
        meta = rd_meta(&mut q, ver)?;
        if !q.rest().is_empty() { return Err(format!("{} bytes after metadata", q.rest().len())); }
        objs = rd_objs(&mut r)?;
        ts = r.u32("timestamp")?;
        nimap = rd_nimap(&mut r)?;
        timers = rd_timers(&mut r)?;
        if !r.rest().is_empty() { return Err(format!("{} bytes after node timers", r.rest().len())); }
    }
    let mut out = Vec::with_capacity(4096);
    let (mut lid, mut ln) = (0u32 + u32::MAX, 0);
    for &id in &nodes {
        if id as u32 != lid {
            lid = id as u32;
            ln = *nimap.get(&id).ok_or_else(|| format!("node id {id} has no name"))?;
        }
        out.push(ln);
    }
    Ok(Block { ver, flags, lc, ts, nodes: out, p1, p2, meta, objs, timers })
}
