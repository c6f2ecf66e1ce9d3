//! Damaged and unsupported blocks. "bad": no reader following the format can decode it.
//! "gray": breaks the format in a way a tolerant reader may overlook.
use crate::gen::*;
use crate::mb::*;
use crate::rng::Rng;

pub const KINDS: usize = 37;

fn be16(v: usize) -> [u8; 2] { (v as u16).to_be_bytes() }

/// Returns (bytes, tag, what).
pub fn damage(r: &mut Rng, p: &Pal, b: &Block, kind: usize) -> (Vec<u8>, &'static str, &'static str) {
    let e = enc(r, p);
    let mut q = parts(b, &e);
    let good = join(&q, &e);
    let v = b.ver;
    match kind {
        0 => if r.chance(0.6) { (vec![], "bad", "empty") } else {
            // Text, which may be stored as such.
            let n = 1 + r.idx(60);
            let mut d: Vec<u8> = (0..n).map(|_| 32 + r.idx(95) as u8).collect();
            if r.chance(0.6) { d.insert(0, *r.pick(&[25u8, 26, 27, 28, 29])); }
            (d, "bad", "text")
        },
        1 => (vec![*r.pick(&[0u8, 24, 25, 28, 29, 30, 255])], "bad", "one byte"),
        2 => { let mut d = good; d[0] = *r.pick(&[0u8, 1, 19, 22, 23, 24, 30, 31, 128, 255]); (d, "bad", "unsupported version") }
        3 => { let n = 1 + r.idx(good.len() - 1); let mut d = good; d.truncate(n); (d, "bad", "truncated") }
        4 => { let n = good.len() - 1 - r.idx(3.min(good.len() - 2)); let mut d = good; d.truncate(n); (d, "bad", "last bytes missing") }
        5 => { q.cw = *r.pick(&[0u8, 1, 3, 255]); (join(&q, &e), "bad", "content width") }
        6 => { q.pw = *r.pick(&[0u8, 1, 3, 255]); (join(&q, &e), "bad", "params width") }
        7 => { q.nimap_ver = *r.pick(&[1u8, 2, 255]); (join(&q, &e), "bad", "name table version") }
        8 => { q.objs[0] = *r.pick(&[1u8, 2, 255]); (join(&q, &e), "bad", "object list version") }
        9 => { q.meta[0] = *r.pick(&[3u8, 4, 255]); (join(&q, &e), "bad", "metadata version") }
        10 => { q.timers[0] = *r.pick(&[0u8, 9, 11, 255]); (join(&q, &e), "bad", "timer length") }
        11 => {
            // Fewer bytes than 4096 nodes need. In version 29 the following sections
            // would be read as node data, so drop those as well.
            let n = match r.idx(5) { 0 => *r.pick(&[0usize, 1, 4096, 8192, 12288, 16383]), 1 => 16 * r.idx(1024), 2 => 256 * r.idx(64), 3 => 12288 + 256 * r.idx(16), _ => r.idx(16384) };
            q.node_data.truncate(n);
            if v >= 29 { q.meta.clear(); q.objs.clear(); q.timers.clear(); }
            (join(&q, &e), "bad", "node data too short")
        }
        12 => if v >= 29 { damage(r, p, b, 3) } else { let n = match r.idx(3) { 0 => 1 + r.idx(5000), 1 => *r.pick(&[1usize, 2, 16, 256, 4096, 8192, 16384]), _ => 256 * (1 + r.idx(32)) }; let z = r.chance(0.4); q.node_data.extend(if z { vec![0; n] } else { r.bytes(n) }); (join(&q, &e), "bad", "node data too long") },
        13 => if v >= 29 { damage(r, p, b, 2) } else { let n = 1 + r.idx(50); let z = r.chance(0.4); q.meta.extend(if z { vec![0; n] } else { r.bytes(n) }); (join(&q, &e), "bad", "metadata has leftover bytes") },
        14 => { // metadata without an inventory terminator
            let mv = if v >= 28 { 2 } else { 1 };
            q.meta = vec![mv, 0, 1, 0, 5, 0, 0, 0, 0];
            q.meta.extend_from_slice(b"List main 1\nEmpty\n");
            if v >= 29 { q.objs.clear(); q.timers.clear(); }
            (join(&q, &e), "bad", "unterminated inventory")
        }
        15 => { // huge string length
            let mv = if v >= 28 { 2 } else { 1 };
            q.meta = vec![mv, 0, 1, 0, 5, 0, 0, 0, 1, 0, 1, b'k'];
            q.meta.extend_from_slice(&r.pick(&[u32::MAX, 0x7FFF_FFFF, 0x8000_0000, 70_000_000]).to_be_bytes());
            q.meta.extend_from_slice(b"val\x00EndInventory\n");
            (join(&q, &e), "bad", "metadata value longer than the data")
        }
        16 => { // counts larger than the data
            let mv = if v >= 28 { 2 } else { 1 };
            q.meta = vec![mv, 0xFF, 0xFF];
            if v >= 29 { q.objs.clear(); q.timers.clear(); }
            (join(&q, &e), "bad", "metadata count")
        }
        17 => { let mv = if v >= 28 { 2 } else { 1 }; q.meta = vec![mv, 0, 1, 0, 5, 0xFF, 0xFF, 0xFF, 0xFF]; if v >= 29 { q.objs.clear(); q.timers.clear(); } (join(&q, &e), "bad", "variable count") }
        18 => { q.timers = vec![10, 0xFF, 0xFF, 0, 0]; (join(&q, &e), "bad", "timer count") }
        19 => { // a metadata position outside the block
            let mv = if v >= 28 { 2 } else { 1 };
            // Possibly among well-formed entries.
            let (before, after) = if r.chance(0.5) { (0, 0) } else { (r.idx(3), r.idx(3)) };
            q.meta = vec![mv, 0, 1 + (before + after) as u8];
            let fine = |r: &mut Rng, q: &mut Parts, i: usize| {
                q.meta.extend_from_slice(&be16(7 + 100 * i));
                q.meta.extend_from_slice(&[0, 0, 0, 1, 0, 1, b'a', 0, 0, 0, 1, b'v']);
                if mv == 2 { q.meta.push(r.idx(2) as u8); }
                q.meta.extend_from_slice(b"EndInventory\n");
            };
            for i in 0..before { fine(r, &mut q, i); }
            q.meta.extend_from_slice(&be16(*r.pick(&[4096usize, 4097, 8192, 65535, 4096 + 4095])));
            q.meta.extend_from_slice(&[0, 0, 0, 1, 0]);
            q.meta.extend_from_slice(&[p.key.len() as u8]);
            q.meta.extend_from_slice(p.key.as_bytes());
            q.meta.extend_from_slice(&[0, 0, 0, 1, b'v']);
            if mv == 2 { q.meta.push(0); }
            let inv = inventory(r, p, false);
            q.meta.extend_from_slice(&inv);
            for i in 0..after { fine(r, &mut q, before + i); }
            (join(&q, &e), "bad", "metadata position outside the block")
        }
        20 => { // a timer outside the block
            let n = be16(*r.pick(&[4096usize, 5000, 65535]));
            let (before, after) = if r.chance(0.5) { (0, 0) } else { (r.idx(3), r.idx(3)) };
            q.timers = vec![10, 0, 1 + (before + after) as u8];
            for i in 0..before { q.timers.extend_from_slice(&[1, i as u8, 0, 0, 0, 1, 0, 0, 0, 1]); }
            q.timers.extend_from_slice(&[n[0], n[1], 0, 0, 0, 1, 0, 0, 0, 1]);
            for i in 0..after { q.timers.extend_from_slice(&[2, i as u8, 0, 0, 0, 1, 0, 0, 0, 1]); }
            (join(&q, &e), "bad", "timer position outside the block")
        }
        21 => { q.nimap.clear(); (join(&q, &e), "bad", "empty name table") }
        22 => { // one used ID has no name
            let used: std::collections::BTreeSet<u16> = q.node_data[..8192].chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
            let u: Vec<u16> = used.into_iter().collect();
            let k = match r.idx(3) { 0 => u[0], 1 => u[u.len() - 1], _ => *r.pick(&u) };
            q.nimap.retain(|x| x.0 != k);
            (join(&q, &e), "bad", "node ID without a name")
        }
        23 => { // a stray node ID
            let i = if r.chance(0.3) { [0, 4095][r.idx(2)] } else { r.idx(4096) };
            let max = q.nimap.iter().map(|x| x.0).max().unwrap_or(0);
            let id = if max == 65535 { 65535 } else { *r.pick(&[max + 1, 65535, 0x7FFF.max(max + 1), max.saturating_add(300)]) };
            if q.nimap.iter().any(|x| x.0 == id) { return damage(r, p, b, 21); }
            q.node_data[2 * i..2 * i + 2].copy_from_slice(&id.to_be_bytes());
            (join(&q, &e), "bad", "stray node ID")
        }
        24 => { // compressed stream damaged: wrong magic number
            let mut d = good;
            let at = if v >= 29 { 1 } else if v >= 27 { 6 } else { 4 };
            d[at] ^= 0xFF;
            (d, "bad", "compression header damaged")
        }
        25 => { let n = r.idx(300); let mut d = vec![*r.pick(&[25u8, 26, 27, 28, 29])]; d.extend(r.bytes(n)); if d.len() < 3 { d.truncate(1); } (d, if n < 20 { "bad" } else { "gray" }, "random bytes") }
        26 => { q.objs = vec![0, 0xFF, 0xFF]; if v >= 29 { q.timers.clear(); } else { return damage(r, p, b, 18); } (join(&q, &e), "bad", "object count") }
        // Gray from here on.
        27 => { let n = 1 + r.idx(30); q.tail = r.bytes(n); (join(&q, &e), "gray", "bytes after the end") }
        28 => { let mut d = good; for _ in 0..1 + r.idx(3) { let i = 1 + r.idx(d.len() - 1); d[i] ^= 1 << r.idx(8); } (d, "gray", "flipped bits") }
        29 => { // the same name twice
            let n = q.nimap[0].1.clone();
            let max = q.nimap.iter().map(|x| x.0).max().unwrap();
            if max == 65535 { return damage(r, p, b, 27); }
            q.nimap.push((max + 1, n));
            for i in 0..4096 { if i % 3 == 0 { q.node_data[2 * i..2 * i + 2].copy_from_slice(&(max + 1).to_be_bytes()); } }
            (join(&q, &e), "gray", "name listed twice")
        }
        30 => { let k = q.nimap[0].0; q.nimap.push((k, b"dup:id".to_vec())); (join(&q, &e), "gray", "ID listed twice") }
        31 => { // positions out of order
            if q.meta.len() < 3 { return damage(r, p, b, 27); }
            q.meta[1] = 0; q.meta[2] = q.meta[2].saturating_sub(1);
            (join(&q, &e), "gray", "metadata count too small")
        }
        34 | 35 | 36 => (mutate(r, p, b), "gray", "changes inside a section"),
        32 => { let mut d = good; let i = 1 + r.idx(d.len() - 1); let n = r.idx(20); let ins = r.bytes(n); d.splice(i..i, ins); (d, "gray", "bytes inserted") }
        _ => { let mut d = good; let i = 1 + r.idx(d.len() - 1); let j = (i + 1 + r.idx(20)).min(d.len()); d.drain(i..j); (d, "gray", "bytes removed") }
    }
}

/// Random changes inside one section before it is packed, so that the damage
/// reaches the decoder of that section.
pub fn mutate(r: &mut Rng, p: &Pal, b: &Block) -> Vec<u8> {
    let e = enc(r, p);
    let mut q = parts(b, &e);
    for _ in 0..1 + r.idx(3) {
        let w = r.weighted(&[2, 5, 4, 4, 2, 1]);
        if w == 4 {
            match r.idx(5) {
                0 if !q.nimap.is_empty() => { let i = r.idx(q.nimap.len()); q.nimap[i].0 = r.u64() as u16; }
                1 if !q.nimap.is_empty() => { let i = r.idx(q.nimap.len()); q.nimap[i].1 = r.bytes(1 + r.clone().idx(40)); }
                2 if !q.nimap.is_empty() => { let i = r.idx(q.nimap.len()); q.nimap.remove(i); }
                3 => q.nimap.push((r.u64() as u16, b"mut:x".to_vec())),
                _ => q.nimap.truncate(r.idx(3)),
            }
            continue;
        }
        if w == 5 { match r.idx(4) { 0 => q.cw = r.u64() as u8, 1 => q.pw = r.u64() as u8, 2 => q.flags = r.u64() as u8, _ => q.nimap_ver = r.u64() as u8 } continue; }
        let d = match w { 0 => &mut q.node_data, 1 => &mut q.meta, 2 => &mut q.objs, _ => &mut q.timers };
        if d.is_empty() { continue; }
        // Near the front lie the counts and lengths.
        let at = if r.chance(0.6) { r.idx(d.len().min(24)) } else { r.idx(d.len()) };
        match r.idx(6) {
            0 => d[at] ^= 1 << r.idx(8),
            1 => d[at] = *r.pick(&[0u8, 1, 0x7F, 0x80, 0xFE, 0xFF]),
            2 => { let u = [1, 2, 16, 256, 4096][r.idx(5)]; d.truncate(at); let n = d.len() / u * u; d.truncate(if r.chance(0.5) { n } else { at }); }
            3 => { let n = 1 + r.idx(8); let x = r.bytes(n); d.splice(at..at, x); }
            4 => { let j = (at + 1 + r.idx(8)).min(d.len()); d.drain(at..j); }
            _ => { let x = r.pick(&[[0u8; 4], [0xFF; 4], [0x7F, 0xFF, 0xFF, 0xFF], [0, 0, 0xFF, 0xFF], [0x80, 0, 0, 0], [0, 1, 0, 0]]).to_vec(); for (i, v) in x.into_iter().enumerate() { if at + i < d.len() { d[at + i] = v; } } }
        }
    }
    join(&q, &e)
}
