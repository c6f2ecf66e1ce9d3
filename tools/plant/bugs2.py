exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
bug('c12-sort-dir','C12',[('commands/clone.rs','	let sort_dir = offset.map(|v| if v > 0 { -1 } else { 1 });','	let sort_dir = offset.map(|v| if v > 15 { -1 } else { 1 });')],'''
# A plane of blocks larger than the block cache, shifted by less than a block.
bl = {}
for z in range(2):
    for x in range(1100):
        b = Block('n:%d_%d' % (x, z)); bl[(x, 0, z)] = b
m = Map(bl); run(m, 'clone', '--p1', 0, 0, 0, '--p2', 1100 * 16 - 1, 15, 15, '--offset', 0, 0, 8)
for x in range(0, 1100, 50):
    g = m.get(x, 0, 1); h = m.get(x, 0, 0)
    assert g.nodes[0] == 'n:%d_0' % x and g.nodes[4095] == 'n:%d_1' % x, (x, g.nodes[0])
    assert h.nodes[0] == 'n:%d_0' % x
# now with three planes so that the middle one is read after it was written
bl = {(x, 0, z): Block('n:%d_%d' % (x, z)) for x in range(600) for z in range(3)}
m = Map(bl); run(m, 'clone', '--p1', 0, 0, 0, '--p2', 600 * 16 - 1, 15, 47, '--offset', 0, 0, 8)
for x in range(0, 600, 40):
    assert m.get(x, 0, 2).nodes[0] == 'n:%d_1' % x, (x, m.get(x, 0, 2).nodes[0])
''','a clone of more than 1024 blocks by a positive offset of less than a block','source blocks are read again after they were overwritten, so shifted content is copied')
bug('c14-ungenerated-source','C14',[('commands/overlay.rs','''				.filter(|d| is_valid_generated(d))
				.and_then''','''				.filter(|d| is_valid_generated(d) || d.len() > 2 && d[0] < 29)
				.and_then''')],'''
m, q = Map({(0, 0, 0): Block('d:d')}), Map({(1, 0, 0): Block('s:s', flags=8)})
run(m, 'overlay', '--p1', 16, 0, 0, '--p2', 31, 15, 15, '--offset', -16, 0, 0, src=q)
assert set(m.get(0, 0, 0).nodes) == {'d:d'}, 'content of a not-generated block was copied'
''','a not-generated source block of version 28 or older','its placeholder content is copied over real nodes')
bug('c14-partial-row','C14',[('block_utils.rs','''			let start = row_start + src_area.min.x;
			let end = row_start + src_area.max.x;
''','''			let start = row_start + src_area.min.x;
			let end = row_start + src_area.max.x;
			if start == end && src_area.min.z != dst_area.min.z {
				continue;
			}
''')],'''
s = Block('s:s'); s.p2 = bytearray([9]) * 4096; d = Block('d:d')
m, q = Map({(0, 0, 0): d}), Map({(1, 0, 0): s})
run(m, 'overlay', '--offset', -1, 0, 3, src=q)
g = m.get(0, 0, 0)
assert g.nodes[idx(15, 0, 3)] == 's:s' and g.p2[idx(15, 0, 3)] == 9, 'param2 not copied'
''','an offset that leaves a fragment one node wide in x, with a z offset that is not a multiple of 16','param1 and param2 of such fragments are not copied')
bug('c15-partial','C15',[('commands/delete_blocks.rs','		&[], inst.args.area, inst.args.invert, false);','		&[], inst.args.area, inst.args.invert,\n		inst.args.invert && inst.args.area.unwrap().volume() < 4096);')],'''
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): Block('a:b')})
run(m, 'deleteblocks', '--p1', 0, 0, 0, '--p2', 5, 5, 5, '--invert')
assert set(m.raw()) == {key(0, 0, 0)}, 'a block touching the area was deleted'
''','--invert with an area of fewer than 4096 nodes','blocks partly inside the area are deleted')
bug('c15-empty-area','C15',[('utils.rs','	if !empty_area || invert {','	if !empty_area {')],'''
m = Map({(0, 0, 0): Block('a:b'), (5, 0, 0): Block('a:b')})
run(m, 'fill', '--p1', 0, 0, 0, '--p2', 5, 5, 5, '--invert', '--', 'c:d')
assert set(m.get(5, 0, 0).nodes) == {'c:d'}, 'blocks outside were not filled'
''','an inverted area that contains no whole block','inverted commands do nothing') 
BUGS[-1]['prop']='C17'; BUGS[-1]['id']='c17-empty-area'
bug('c15-damaged','C15',[('utils.rs','''			if let Some(&block_version) = data.get(0) {
''','''			if data.is_empty() {
				continue; // Nothing stored here.
			}
			if let Some(&block_version) = data.get(0) {
''')],'''
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): b''})
r = run(m, 'deleteblocks', '--p1', 0, 0, 0, '--p2', 31, 15, 15)
assert set(m.raw()) == set(), 'an empty row was left behind'
''','a stored block with empty data','rows with empty data are not deleted')
bug('c16-vacuum-into','C16',[('map_database.rs','		self.conn.execute("VACUUM")?;','		self.conn.execute("DELETE FROM blocks WHERE length(data) = 0")?;\n		self.conn.execute("VACUUM")?;')],'''
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): b''}); before = m.raw()
run(m, 'vacuum')
assert m.raw() == before, 'vacuum changed the rows'
''','a stored row with empty data','vacuum deletes such rows')
bug('c16-incremental','C16',[('map_database.rs','		self.conn.execute("VACUUM")?;','		self.conn.execute("PRAGMA incremental_vacuum")?;\n		if self.conn.prepare("PRAGMA auto_vacuum")?.next().is_err() {\n			self.conn.execute("VACUUM")?;\n		}')],'''
import random
r = random.Random(1); bl = {}
for i in range(60):
    b = Block('a:b'); b.p2 = bytearray(r.randbytes(4096)); bl[(i, 0, 0)] = b
m = Map(bl); run(m, 'deleteblocks', '--p1', 0, 0, 0, '--p2', 50 * 16 - 1, 15, 15)
size = os.path.getsize(m.file); run(m, 'vacuum')
c = sqlite3.connect(m.file); free = c.execute('PRAGMA freelist_count').fetchone()[0]; c.close()
assert free == 0 and os.path.getsize(m.file) < size, (free, size)
''','a map file with free pages (any auto_vacuum mode but incremental)','vacuum leaves the unused pages in the file')
bug('c17-unsorted','C17',[('spatial/area.rs','''				y: max(a.y, b.y),
				z: max(a.z, b.z)''','''				y: max(a.y, b.y),
				z: if a.x > b.x { a.z } else { max(a.z, b.z) }''')],'''
for p1, p2 in (((0, 0, 0), (15, 15, 15)), ((15, 0, 15), (0, 15, 0)), ((15, 0, 0), (0, 15, 15))):
    m = Map({(0, 0, 0): Block('a:b')}); run(m, 'fill', '--p1', *p1, '--p2', *p2, '--', 'c:d')
    assert set(m.get(0, 0, 0).nodes) == {'c:d'}, (p1, p2)
''','corners given so that the first has the greater x and the lesser z','the area has the wrong extent (or the program panics)')
bug('c17-inverse-iter','C17',[('spatial/mod.rs','''				if sp.z > self.area.max.z {''','''				if sp.z >= self.area.max.z && self.skip_len == 16 {''')],'''
m = Map({(0, 0, 0): Block('a:b')}); run(m, 'fill', '--p1', -20, 2, 2, '--p2', 40, 5, 5, '--invert', '--', 'c:d')
g = m.get(0, 0, 0)
assert all(g.nodes[i] == ('a:b' if 2 <= i // 16 % 16 <= 5 and 2 <= i // 256 <= 5 else 'c:d') for i in range(4096))
''','an inverted area that spans a block completely in x but not in y and z','the last z layer of the protected part is edited')
bug('c18-zstd-header','C18',[('map_block/map_block.rs','''		match dec.read_u8() {
			Ok(f) => f,
			Err(_) => return false
		}''','''		match dec.read_u16::<BigEndian>() {
			Ok(f) => (f >> 8) as u8,
			Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return false,
			Err(e) => panic!("{}", e)
		}''')],'''
good = Block('a:b', ver=29)
m = Map({(0, 0, 0): good, (1, 0, 0): b'\\x1d' + b'junk' * 9})
r = run(m, 'clone', '--p1', 0, 0, 0, '--p2', 15, 15, 15, '--offset', 16, 0, 0)
assert 'Done.' in r.out, r.stderr
''','a version 29 block whose compressed data is damaged, as the destination or source of clone or overlay','the program panics')
bug('c18-vars-count','C18',[('map_block/metadata.rs','HashMap::with_capacity(min(var_count as usize, 64));','HashMap::with_capacity(var_count as usize);')],'''
b = Block('a:b'); raw = Block('a:b')
class Bad(Block): pass
x = Block('a:b'); x.meta[1] = ([], b'EndInventory\\n'); e = x.enc()
# raise the variable count inside the compressed metadata
import struct
def rebuild():
    o = bytes([28, 0]) + struct.pack('>H', 0xFFFF) + b'\\2\\2' + zlib.compress(b'\\0' * 16384)
    o += zlib.compress(b'\\2\\0\\1\\0\\1\\xff\\xff\\xff\\xffEndInventory\\n') + b'\\0\\0\\0' + b'\\0' * 4
    return o + b'\\0\\0\\1\\0\\0' + s16(b'a:b') + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): rebuild()}); before = m.raw()
r = run(m, 'replacenodes', 'a:b', 'c:d')
assert 'Done.' in r.out and 'Skipped 1' in r.out, r.stderr[-300:]
assert m.raw()[key(1, 0, 0)] == before[key(1, 0, 0)]
''','a damaged block that claims a huge number of metadata variables','the allocation fails or overflows and the program aborts')
bug('c18-zip-leftover','C18',[('map_block/node_data.rs','		if decoder.read(&mut [0])? > 0 {','		if decoder.read(&mut []).unwrap_or(0) > 0 {')],'''
o = bytes([28, 0]) + struct.pack('>H', 0xFFFF) + b'\\2\\2' + zlib.compress(b'\\0' * 16384 + b'more')
o += zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0' * 4 + b'\\0\\0\\1\\0\\0' + s16(b'a:b') + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): o}); before = m.raw()
r = run(m, 'replacenodes', 'a:b', 'c:d')
assert m.raw()[key(1, 0, 0)] == before[key(1, 0, 0)] and 'Skipped 1' in r.out, r.out
''','a block whose compressed node data is longer than 4096 nodes','a damaged block is rewritten (or misread) instead of being skipped')
bug('c23-failed-total','C23',[('commands/clone.rs','			{ inst.status.inc_failed(); continue; }\n','			{ if offset.x != 0 { inst.status.inc_failed(); } continue; }\n')],'''
m = Map({(0, 0, 0): Block('a:b'), (0, 0, 1): Block('a:b').enc()[:-3]})
r = run(m, 'clone', '--p1', 0, 0, 0, '--p2', 15, 15, 15, '--offset', 0, 0, 16)
assert 'Skipped 1' in r.out, r.out
''','a clone without x offset onto an undecodable block','the skipped block is not reported')
bug('c23-bignum','C23',[('commands/delete_meta.rs','			count += to_delete.len() as u64;','			count += to_delete.len() as u8 as u64;')],'''
b = Block('a:b')
for i in range(300): b.meta[i] = ([(b'k', b'v', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b}); r = run(m, 'deletemeta')
assert 'Deleted metadata from 300 nodes' in r.out, r.out
''','a block in which 256 or more nodes lose their metadata','the reported number is too small')
bug('c26-id-order','C26',[('map_block/name_id_map.rs','''		self.0.iter().find_map(|(&k, v)|
			if v.as_slice() == name { Some(k) } else { None }
		)''','''		self.0.iter().zip(0u16..).find_map(|((_, v), i)|
			if v.as_slice() == name { Some(i) } else { None }
		)''')],'''
# The same block, once with IDs 0, 1, once with IDs 3, 7.
import struct
def mk(a, b):
    n = struct.pack('>H', b) * 10 + struct.pack('>H', a) * 4086
    o = bytes([28, 0]) + struct.pack('>H', 0xFFFF) + b'\\2\\2' + zlib.compress(n + bytes(8192)) + zlib.compress(b'\\0') + b'\\0\\0\\0' + bytes(4)
    return o + b'\\0\\0\\2' + struct.pack('>H', a) + s16(b'air') + struct.pack('>H', b) + s16(b'a:b') + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): mk(0, 1), (1, 0, 0): mk(3, 7)}); run(m, 'setparam2', '--node', 'a:b', '--', 5)
assert m.get(0, 0, 0).p2[:11] == bytes([5] * 10 + [0]) and m.get(1, 0, 0).p2[:11] == bytes([5] * 10 + [0])
''','a block whose node IDs are not numbered consecutively from 0','nodes are looked up under the wrong ID')
BUGS=[b for b in BUGS if b]
