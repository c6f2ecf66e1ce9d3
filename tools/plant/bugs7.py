exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])

bug('c17-swap-whole','C17',[('cmd_line.rs','''			if let (Some(p1), Some(p2)) = (p1_maybe, p2_maybe) {
				Some(Area::from_unsorted(p1, p2))''','''			if let (Some(p1), Some(p2)) = (p1_maybe, p2_maybe) {
				if p1.x <= p2.x && p1.y <= p2.y {
					Some(Area {min: p1, max: p2})
				} else {
					Some(Area::from_unsorted(p1, p2))
				}''')],'''
def fresh(): return Map({(0, 0, 0): Block('a:b'), (0, 0, 1): Block('a:b')})
m, n = fresh(), fresh()
run(m, 'fill', '--p1', 0, 0, 0, '--p2', 15, 15, 20, 'c:d')
run(n, 'fill', '--p1', 0, 0, 20, '--p2', 15, 15, 0, 'c:d')
assert m.get(0, 0, 0).nodes == n.get(0, 0, 0).nodes and m.get(0, 0, 1).nodes == n.get(0, 0, 1).nodes
''','corners which are reversed along z only','nothing, or something else, is selected')

bug('c05-gap-id','C05',[('commands/fill.rs','''				let next = block.nimap.get_max_id().unwrap() + 1;''','''				let next = block.nimap.0.len() as u16;''')],'''
import zlib
ids, names = [0, 2, 5], ['a:a', 'b:b', 'c:c']
nd = b''.join(struct.pack('>H', ids[i % 3]) for i in range(4096)) + bytes(8192)
nm = struct.pack('>BH', 0, 3) + b''.join(struct.pack('>H', i) + s16(n.encode()) for i, n in zip(ids, names))
ids2 = [0, 1, 3]
nm2 = struct.pack('>BH', 0, 3) + b''.join(struct.pack('>H', i) + s16(n.encode()) for i, n in zip(ids2, names))
nd2 = b''.join(struct.pack('>H', ids2[i % 3]) for i in range(4096)) + bytes(8192)
f = lambda nd, nm: bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(nd) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + nm + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): f(nd, nm), (1, 0, 0): f(nd2, nm2)})
run(m, 'fill', '--p1', 0, 0, 0, '--p2', 31, 0, 0, 'x:y')
for k in (0, 1):
    a = m.get(k, 0, 0)
    for i in range(4096):
        assert a.nodes[i] == ('x:y' if i < 16 else names[i % 3]), (k, i)
''','a name table with gaps in its numbering','nodes of another name are filled as well')

bug('c02-shift-len','C02',[('map_block/name_id_map.rs','''		for k in id + 1 ..= self.get_max_id().unwrap_or(0) {''','''		for k in id + 1 ..= self.0.len() as u16 {''')],'''
import zlib
ids, names = [0, 1, 2, 7, 9], ['a:a', 'b:b', 'c:c', 'd:d', 'e:e']
nd = b''.join(struct.pack('>H', ids[i % 5]) for i in range(4096)) + bytes(8192)
nm = struct.pack('>BH', 0, 5) + b''.join(struct.pack('>H', i) + s16(n.encode()) for i, n in zip(ids, names))
m = Map({(0, 0, 0): bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(nd) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + nm + b'\\x0a\\0\\0'})
run(m, 'replacenodes', 'b:b', 'a:a')
assert m.get(0, 0, 0).nodes == [['a:a', 'a:a', 'c:c', 'd:d', 'e:e'][i % 5] for i in range(4096)]
''','a name table with gaps, and a name that disappears from it','node IDs without a name')

bug('c01-inflate-cap','C01',[('map_block/map_block.rs','''				decompressed = zstd::stream::decode_all(raw_crs)?;''','''				// Guard against decompression bombs.
				let mut out = Vec::new();
				zstd::stream::Decoder::new(raw_crs)?.take(1 << 20)
					.read_to_end(&mut out)?;
				decompressed = out;''')],'''
b = Block('a:b', ver=29)
for i in range(40): b.meta[i * 50] = ([(b'k', bytes([i]) * 40000, 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b})
r = run(m, 'replacenodes', 'a:b', 'c:d')
a = m.get(0, 0, 0)
assert a.nodes == ['c:d'] * 4096 and a.meta == b.meta, r.out
''','a version 29 block of more than 1 MiB uncompressed','the block is skipped as damaged')

bug('c01-meta-cap','C01',[('map_block/metadata.rs','''		let mut decoder = ZlibDecoder::new(src);
		let mut buf = Vec::new();
		decoder.read_to_end(&mut buf)?;''','''		let mut decoder = ZlibDecoder::new(src);
		let mut buf = Vec::new();
		// Guard against decompression bombs.
		decoder.by_ref().take(1 << 21).read_to_end(&mut buf)?;''')],'''
b = Block('a:b', ver=28)
for i in range(80): b.meta[i * 50] = ([(b'k', bytes([i]) * 40000, 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b})
r = run(m, 'replacenodes', 'a:b', 'c:d')
a = m.get(0, 0, 0)
assert a.nodes == ['c:d'] * 4096 and a.meta == b.meta, r.out
''','an old block with more than 2 MiB of metadata','the block is skipped as damaged')

bug('c26-extension','C26',[('instance.rs','''	let new_path = if path.is_file() {
		path
	} else {''','''	let is_db = path.extension()
		.map_or(false, |e| e == "sqlite" || e == "db" || e == "sqlite3");
	let new_path = if is_db && path.is_file() {
		path
	} else {''')],'''
m = Map({(0, 0, 0): Block('a:b')})
f = os.path.join(m.dir, 'backup')
os.rename(m.file, f); m.file = f; d, m.dir = m.dir, f
r = run(m, 'replacenodes', 'a:b', 'c:d')
try: assert 'Done' in r.out and m.get(0, 0, 0).nodes == ['c:d'] * 4096, r.out
finally: m.dir = d
''','a map file whose name has no or an unusual extension','the map is not found')

bug('c26-prefer-dir','C26',[('instance.rs','''	let new_path = if path.is_file() {
		path
	} else {
		let with_file = path.join("map.sqlite");''','''	let new_path = if path.is_file() {
		path
	} else {
		let with_file = match path.extension() {
			Some(_) => path.with_extension("sqlite"),
			None => path.join("map.sqlite"),
		};
		let with_file = if with_file.is_file() { with_file }
			else { path.join("map.sqlite") };''')],'''
m = Map({(0, 0, 0): Block('a:b')})
d = os.path.join(m.dir, 'world.old'); os.mkdir(d)
n = Map({(0, 0, 0): Block('a:b')})
shutil.copy(n.file, d + '/map.sqlite'); shutil.copy(n.file, os.path.join(m.dir, 'world.sqlite'))
class W: pass
w = W(); w.dir = d
r = run(w, 'replacenodes', 'a:b', 'c:d')
m.file = os.path.join(m.dir, 'world.sqlite')
assert m.get(0, 0, 0).nodes == ['a:b'] * 4096
m.file = d + '/map.sqlite'
r = m.get(0, 0, 0)
assert m.get(0, 0, 0).nodes == ['c:d'] * 4096
''','a world directory with a dot in its name beside a database of the same stem','another map is edited')

bug('c13-keep-newer','C13',[('commands/overlay.rs','''				let data = idb.get_block(key).unwrap();
				if is_valid_generated(&data) {
					db.set_block(key, &data).unwrap();
				}
			} else { // Copy part of mapblock''','''				let data = idb.get_block(key).unwrap();
				// Do not replace a mapblock by an older version of itself.
				let newer = db.get_block_opt(key).unwrap()
					.map_or(false, |old| old.get(0) > data.get(0));
				if is_valid_generated(&data) && !newer {
					db.set_block(key, &data).unwrap();
				}
			} else { // Copy part of mapblock''')],'''
m = Map({(0, 0, 0): Block('a:b', ver=29)}); s = Map({(0, 0, 0): Block('c:d', ver=25)})
r = run(m, 'overlay', s.file, '--p1', 0, 0, 0, '--p2', 15, 15, 15)
assert m.raw() == s.raw(), r.out
''','a source block of an older format version than the block it replaces','the block is not copied')


bug('c24-short-read','C24',[('map_block/node_data.rs','''		let mut param2 = vec_with_len(NODE_COUNT);
		src.read_exact(&mut param2)?;
''','''		// Some old blocks lack some layers of the param2 data.
		let mut param2 = vec_with_len(NODE_COUNT);
		let mut len = 0;
		while len < NODE_COUNT {
			match src.read(&mut param2[len..])? {
				0 if len > 0 && len % 256 == 0 => break,
				0 => return Err(MapBlockError::BadData),
				n => len += n
			}
		}
''')],'''
import zlib
f = bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(bytes(8192) + bytes(4096) + bytes(3072)) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + struct.pack('>BH', 0, 1) + b'\\0\\0' + s16(b'a:b') + b'\\x0a\\0\\0'
m = Map({(i, 0, 0): f if i % 2 else Block('a:b') for i in range(40)})
before = m.raw()
run(m, 'replacenodes', 'a:b', 'c:d')
after = m.raw()
odd = [k for k in before if before[k] == f]
assert len(odd) == 20 and all(after[k] == f for k in odd)
''','a block whose node data is cut short','whatever is in memory becomes param2 of some nodes')

bug('c03-journal-mode','C03',[('map_database.rs','''		conn.execute("BEGIN")?;
		verify_database(conn)?;
''','''		// A rollback journal is the fastest choice for bulk changes.
		let _ = conn.execute("PRAGMA journal_mode = DELETE");
		conn.execute("BEGIN")?;
		verify_database(conn)?;
''')],'''
m = Map({(0, 0, 0): Block('a:b')})
import sqlite3
c = sqlite3.connect(m.file); assert c.execute('pragma journal_mode=wal').fetchone()[0] == 'wal'; c.close()
run(m, 'replacenodes', 'a:b', 'c:d')
c = sqlite3.connect(m.file); assert c.execute('pragma journal_mode').fetchone()[0] == 'wal'; c.close()
''','a map in write-ahead-log mode','the mode of the database, a setting of its user, is changed')

bug('c26-row-order','C26',[('utils.rs','''					let block_pos = Vec3::from_block_key(key);
					if a.contains(block_pos) == invert {
						continue;
					}
''','''					let block_pos = Vec3::from_block_key(key);
					if !invert && key > a.max.to_block_key() {
						break; // Past the last block of the area.
					}
					if a.contains(block_pos) == invert {
						continue;
					}
''')],'''
m = Map({(0, 0, k): Block('a:b') for k in (3, 0, 1, 2)})
run(m, 'replacenodes', 'a:b', 'c:d', '--p1', 0, 0, 0, '--p2', 15, 15, 31)
assert [m.get(0, 0, k).nodes[0] for k in range(4)] == ['c:d', 'c:d', 'a:b', 'a:b']
''','an area, and rows which were not stored in the order of their positions','blocks stored after one beyond the area are not edited')
