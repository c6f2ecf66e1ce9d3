//! Reading the shim's record of file operations, and rebuilding the files at any point of it.
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Op { pub op: char, pub worker: bool, pub fault: bool, pub fd: i32, pub flags: i32, pub off: i64, pub res: i64, pub err: i32, pub data: Vec<u8> }

pub fn parse(b: &[u8]) -> Result<Vec<Op>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b.len() - i < 40 { if b.len() - i < 40 { return Err(format!("truncated trace record at {i} of {}", b.len())); } }
        let u32_ = |o: usize| u32::from_le_bytes(b[i + o..i + o + 4].try_into().unwrap());
        let i64_ = |o: usize| i64::from_le_bytes(b[i + o..i + o + 8].try_into().unwrap());
        if u32_(0) != 0x5653_4849 { return Err(format!("bad trace record at {i}")); }
        let n = u32_(36) as usize;
        if b.len() - i - 40 < n { return Err("truncated trace data".into()); }
        v.push(Op { op: b[i + 4] as char, worker: b[i + 5] != 0, fault: b[i + 6] != 0, fd: u32_(8) as i32, flags: u32_(12) as i32, off: i64_(16), res: i64_(24), err: u32_(32) as i32, data: b[i + 40..i + 40 + n].to_vec() });
        i += 40 + n;
    }
    Ok(v)
}
impl Op {
    pub fn path(&self) -> String { String::from_utf8_lossy(&self.data).into_owned() }
    pub fn ok(&self) -> bool { self.err == 0 && self.res >= 0 }
    /// Does it change a file or a directory?
    pub fn modifies(&self, existed: bool) -> bool {
        self.ok() && match self.op { 'W' | 'T' | 'U' | 'R' => true, 'O' => (self.flags & 0o100 != 0 && !existed) || self.flags & 0o1000 != 0, _ => false }
    }
}

#[derive(Clone, Debug)]
enum Change { Write(usize, Vec<u8>), Size(usize) }
#[derive(Clone, Debug, Default)]
struct Inode { durable: Vec<u8>, cur: Vec<u8>, pending: Vec<Change> }
fn apply(b: &mut Vec<u8>, c: &Change) {
    match c {
        Change::Write(o, d) => { if b.len() < o + d.len() { b.resize(o + d.len(), 0); } b[*o..o + d.len()].copy_from_slice(d); }
        Change::Size(n) => b.resize(*n, 0),
    }
}

/// The files as the recorded operations left them, with what is not yet durable.
#[derive(Clone, Default)]
pub struct Disk { inodes: Vec<Inode>, dir: BTreeMap<String, usize>, fds: BTreeMap<i32, usize>, pub version: u64 }
impl Disk {
    pub fn new(files: &BTreeMap<String, Vec<u8>>) -> Disk {
        let mut d = Disk::default();
        for (p, b) in files { d.dir.insert(p.clone(), d.inodes.len()); d.inodes.push(Inode { durable: b.clone(), cur: b.clone(), pending: vec![] }); }
        d
    }
    pub fn exists(&self, p: &str) -> bool { self.dir.contains_key(p) }
    pub fn fd_path(&self, fd: i32) -> Option<String> { let i = *self.fds.get(&fd)?; self.dir.iter().find(|(_, &j)| j == i).map(|(p, _)| p.clone()) }
    pub fn step(&mut self, o: &Op) {
        match o.op {
            'O' if o.res >= 0 && o.err == 0 => {
                let p = norm(&o.path());
                let i = match self.dir.get(&p) {
                    Some(&i) => i,
                    None if o.flags & 0o100 != 0 => { self.inodes.push(Inode::default()); self.dir.insert(p, self.inodes.len() - 1); self.version += 1; self.inodes.len() - 1 }
                    None => { self.inodes.push(Inode::default()); self.inodes.len() - 1 } // a directory, or not watched
                };
                if o.flags & 0o1000 != 0 { self.change(i, Change::Size(0)); }
                self.fds.insert(o.fd, i);
            }
            'C' => { self.fds.remove(&o.fd); }
            'W' if o.res > 0 => if let Some(&i) = self.fds.get(&o.fd) { self.change(i, Change::Write(o.off as usize, o.data.clone())); },
            'T' if o.ok() => if let Some(&i) = self.fds.get(&o.fd) { self.change(i, Change::Size(o.off as usize)); },
            'S' if o.ok() => if let Some(&i) = self.fds.get(&o.fd) { let n = &mut self.inodes[i]; if !n.pending.is_empty() { self.version += 1; } n.durable = n.cur.clone(); n.pending.clear(); },
            'U' if o.ok() => { self.dir.remove(&norm(&o.path())); self.version += 1; }
            'R' if o.ok() => { let p = o.path(); if let Some((a, b)) = p.split_once('\n') { if let Some(i) = self.dir.remove(&norm(a)) { self.dir.insert(norm(b), i); } } self.version += 1; }
            _ => {}
        }
    }
    fn change(&mut self, i: usize, c: Change) { apply(&mut self.inodes[i].cur, &c); self.inodes[i].pending.push(c); self.version += 1; }
    /// After a kill of the process: everything written is there.
    pub fn killed(&self) -> BTreeMap<String, Vec<u8>> { self.dir.iter().map(|(p, &i)| (p.clone(), self.inodes[i].cur.clone())).collect() }
    pub fn unsynced(&self) -> usize { self.dir.values().map(|&i| self.inodes[i].pending.len()).sum() }
    /// After a power loss: unsynced changes are there or not, sector by sector.
    pub fn power_loss(&self, r: &mut Rng) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        let mode = r.idx(6);
        for (p, &i) in &self.dir {
            let n = &self.inodes[i];
            let mut b = n.durable.clone();
            let total = n.pending.len();
            let cut = r.idx(total + 1);
            let keep_one = if total > 0 { r.idx(total) } else { 0 };
            let file_keep = r.chance(0.5);
            let sector = if r.chance(0.5) { 512 } else { 4096 };
            let pr = [0.1, 0.5, 0.9][r.idx(3)];
            for (j, c) in n.pending.iter().enumerate() {
                match mode {
                    0 => {}
                    1 => if file_keep { apply(&mut b, c) },
                    2 => if j < cut { apply(&mut b, c) },
                    3 => if j >= cut { apply(&mut b, c) },
                    4 => if j == keep_one { apply(&mut b, c) },
                    _ => match c {
                        Change::Size(_) => if r.chance(pr) { apply(&mut b, c) },
                        Change::Write(o, d) => {
                            let mut x = *o;
                            while x < o + d.len() {
                                let e = ((x / sector + 1) * sector).min(o + d.len());
                                if r.chance(pr) { apply(&mut b, &Change::Write(x, d[x - o..e - o].to_vec())); }
                                x = e;
                            }
                        }
                    },
                }
            }
            m.insert(p.clone(), b);
        }
        m
    }
}
/// Lexical normalization ("/a/./b//c").
pub fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') { match s { "" | "." => {} ".." => { v.pop(); } s => v.push(s) } }
    format!("/{}", v.join("/"))
}
