//! Maps: a set of rows (position key -> bytes), each with its decoded block if well-formed.
use crate::ffi::Db;
use crate::mb::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type P = [i32; 3];

pub fn key_of(p: P) -> i64 { p[0] as i64 + p[1] as i64 * 4096 + p[2] as i64 * 16777216 }
pub fn pos_of(key: i64) -> P {
    // From Minetest's pythonblockpos decoding.
    fn u2s(i: i64) -> i64 { let m = i.rem_euclid(4096); if m < 2048 { m } else { m - 4096 } }
    let x = u2s(key);
    let k = (key - x) >> 12;
    let y = u2s(k);
    let k = (k - y) >> 12;
    [x as i32, y as i32, u2s(k) as i32]
}
pub fn add(a: P, b: P) -> P { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
/// Block containing a node.
pub fn block_of(p: P) -> P { [p[0].div_euclid(16), p[1].div_euclid(16), p[2].div_euclid(16)] }
pub fn index_of(p: P) -> usize {
    (p[0].rem_euclid(16) + 16 * p[1].rem_euclid(16) + 256 * p[2].rem_euclid(16)) as usize
}
/// Absolute position of node `i` of block `b`.
pub fn node_pos(b: P, i: usize) -> P {
    [b[0] * 16 + (i % 16) as i32, b[1] * 16 + (i / 16 % 16) as i32, b[2] * 16 + (i / 256) as i32]
}

#[derive(Clone)]
pub struct Cell { pub raw: Arc<Vec<u8>>, pub block: Option<Arc<Block>>, pub tag: &'static str }

#[derive(Clone, Default)]
pub struct World { pub cells: BTreeMap<i64, Cell> }

impl World {
    pub fn good(&self, p: P) -> Option<&Block> { self.cells.get(&key_of(p)).and_then(|c| c.block.as_deref()) }
    pub fn generated(&self, p: P) -> Option<&Block> { self.good(p).filter(|b| b.generated()) }
    pub fn put(&mut self, p: P, b: Block, o: &EncOpts) {
        let raw = encode(&b, o);
        self.cells.insert(key_of(p), Cell { raw: Arc::new(raw), block: Some(Arc::new(b)), tag: "good" });
    }
    pub fn put_raw(&mut self, p: P, raw: Vec<u8>, tag: &'static str) {
        self.cells.insert(key_of(p), Cell { raw: Arc::new(raw), block: None, tag });
    }
    pub fn raws(&self) -> BTreeMap<i64, Arc<Vec<u8>>> { self.cells.iter().map(|(k, c)| (*k, c.raw.clone())).collect() }
    pub fn from_raws(r: &BTreeMap<i64, Vec<u8>>) -> World {
        World { cells: r.iter().map(|(k, v)| {
            let d = decode(v);
            (*k, Cell { raw: Arc::new(v.clone()), tag: if d.is_ok() { "good" } else { "bad" }, block: d.ok().map(Arc::new) })
        }).collect() }
    }
}

#[derive(Clone, Debug)]
pub struct DbOpts { pub page_size: u32, pub auto_vacuum: u8, pub extra: bool, pub order_seed: u64, pub holes: usize, pub wal: bool, pub schema: usize, pub utf16: bool, /** Some damaged rows are NULL or text instead of a blob. */ pub odd: bool, /** Row numbers of any size and sign. */ pub rowids: bool }
impl Default for DbOpts { fn default() -> Self { DbOpts { page_size: 4096, auto_vacuum: 0, extra: false, order_seed: 0, holes: 0, wal: false, schema: 0, utf16: false, odd: false, rowids: false } } }

/// The game's own definition first, then others to the same effect.
pub const SCHEMAS: [&str; 6] = [
    "CREATE TABLE `blocks` (\n\t`pos` INT PRIMARY KEY,\n\t`data` BLOB\n)",
    "CREATE TABLE IF NOT EXISTS blocks(pos INT NOT NULL PRIMARY KEY,data BLOB)",
    "create table \"blocks\" (\"pos\" INT primary key, \"data\" BLOB not null)",
    "CREATE TABLE blocks (pos INT PRIMARY KEY, data BLOB) WITHOUT ROWID",
    "CREATE TABLE [blocks] ([pos] INT, [data] BLOB, PRIMARY KEY (pos))",
    "CREATE TABLE blocks (pos INT PRIMARY KEY DESC, data BLOB)",
];
pub fn write_db(path: &str, w: &World, o: &DbOpts) -> Result<(), String> {
    let db = Db::create(path)?;
    db.exec(&format!("PRAGMA page_size={}", o.page_size))?;
    db.exec(&format!("PRAGMA auto_vacuum={}", o.auto_vacuum))?;
    if o.utf16 { db.exec("PRAGMA encoding='UTF-16'")?; }
    db.exec("PRAGMA journal_mode=OFF")?;
    db.exec("PRAGMA synchronous=OFF")?;
    db.exec("BEGIN")?;
    db.exec(SCHEMAS[o.schema])?;
    let mut keys: Vec<i64> = w.cells.keys().copied().collect();
    if o.order_seed != 0 { crate::rng::Rng::new(o.order_seed).shuffle(&mut keys); }
    {
        let numbered = o.rowids && o.schema != 3;
        let mut st = db.prepare(if numbered { "INSERT INTO blocks (pos,data,rowid) VALUES (?,?,?)" } else { "INSERT INTO blocks VALUES (?,?)" })?;
        let mut rr = crate::rng::Rng::new(o.order_seed ^ 99);
        let mut row = match rr.idx(3) { 0 => i64::MIN + 1, 1 => -50, _ => 1 << 40 };
        let mut r = crate::rng::Rng::new(o.order_seed ^ 77);
        let mut hole = 0;
        for k in &keys {
            if hole < o.holes && r.chance(0.5) {
                hole += 1;
                st.bind_i64(1, 5_000_000_000_000 + hole as i64);
                if numbered { row += 1; st.bind_i64(3, row); }
                let n = r.idx(9000);
                let junk = r.bytes(n);
                st.bind_blob(2, &junk);
                st.step()?; st.reset();
            }
            let c = &w.cells[k];
            st.bind_i64(1, *k);
            if numbered { row += 1 + if rr.chance(0.3) { rr.below(1 << 33) as i64 } else { 0 }; st.bind_i64(3, row); }
            let odd = o.odd && c.block.is_none();
            if odd && c.raw.is_empty() && o.schema != 2 && k & 1 == 0 { st.bind_null(2); }
            else if odd && !o.utf16 && c.raw.iter().all(|&b| b > 0 && b < 128) { st.bind_text(2, &c.raw); }
            else { st.bind_blob(2, &c.raw); }
            st.step()?;
            st.reset();
        }
        if o.holes > 20 {
            for h in hole..o.holes { if numbered { row += 1; st.bind_i64(3, row); } st.bind_i64(1, 6_000_000_000_000 + h as i64); let n = r.idx(5000); let junk = vec![7u8; n]; st.bind_blob(2, &junk); st.step()?; st.reset(); }
        }
    }
    if o.extra {
        db.exec("CREATE TABLE other (a, b TEXT)")?;
        db.exec("INSERT INTO other VALUES (1,'one'),(2,NULL),(x'00ff','blob')")?;
        db.exec("PRAGMA user_version=1234567")?;
        db.exec("PRAGMA application_id=42")?;
    }
    db.exec("COMMIT")?;
    if o.holes > 0 { db.exec("DELETE FROM blocks WHERE pos > 4999999999999")?; }
    if o.wal { db.exec("PRAGMA journal_mode=WAL")?; }
    Ok(())
}

/// Type of each row that is not a blob.
pub fn odd_rows(path: &str) -> Result<BTreeMap<i64, Vec<u8>>, String> {
    let db = Db::open(path)?;
    let mut st = db.prepare("SELECT pos, typeof(data) FROM blocks WHERE typeof(data) != 'blob'")?;
    let mut m = BTreeMap::new();
    while st.step()? { m.insert(st.i64(0), st.blob(1)); }
    Ok(m)
}

/// Rows plus a rendering of everything else in the file.
pub fn read_db(path: &str) -> Result<(BTreeMap<i64, Vec<u8>>, Vec<String>), String> {
    let db = Db::open(path)?;
    let mut rows = BTreeMap::new();
    {
        let mut st = db.prepare("SELECT pos, data, typeof(pos), typeof(data) FROM blocks")?;
        while st.step()? {
            let k = st.i64(0);
            let t = (st.blob(2), st.blob(3));
            if t.0 != b"integer" || !matches!(&t.1[..], b"blob" | b"null" | b"text") { return Err(format!("row {k}: stored as {:?}", (String::from_utf8_lossy(&t.0).into_owned(), String::from_utf8_lossy(&t.1).into_owned()))); }
            if rows.insert(k, st.blob(1)).is_some() { return Err(format!("duplicate row {k}")); }
        }
    }
    let mut meta = db.dump("SELECT type,name,tbl_name,sql FROM sqlite_master ORDER BY name")?;
    if meta.iter().any(|m| m.contains(&format!("{:?}", b"other".to_vec()))) { meta.extend(db.dump("SELECT * FROM other ORDER BY rowid")?); }
    for p in ["user_version", "application_id", "encoding", "journal_mode"] { meta.extend(db.dump(&format!("PRAGMA {p}"))?); }
    Ok((rows, meta))
}
