exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])

bug('c24-unchecked-ids','C24',[('block_utils.rs','''	for id in &block.node_data.nodes {
		used[*id as usize] = true;
	}''','''	for id in &block.node_data.nodes {
		// All IDs were validated when the block was loaded.
		unsafe { *used.get_unchecked_mut(*id as usize) = true; }
	}'''),('block_utils.rs','	let id_count = block.nimap.get_max_id().unwrap() as usize + 1;','	let id_count = block.nimap.0.len();'),('block_utils.rs','map = vec![0u16; id_count];','map = vec![0u16; u16::MAX as usize + 1];'),('block_utils.rs','		if !used[id as usize] {','		if !used.get(id as usize).copied().unwrap_or(true) {')],'''
# IDs are numbered with gaps.
def blk(n, light):
    b = Block(n); b.nodes[5] = 'x:b'; raw = b.enc()
    return b
import zlib
def sparse(ids, names):
    b = Block(names[0]); raw = bytearray()
    nd = bytearray()
    for i in range(4096): nd += struct.pack('>H', ids[i % len(ids)])
    nd += bytes(8192)
    nm = struct.pack('>BH', 0, len(ids)) + b''.join(struct.pack('>H', i) + s16(n.encode()) for i, n in zip(ids, names))
    return bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(bytes(nd)) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + nm + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): sparse([3, 4000], ['a:a', 'b:b'])})
r = run(m, 'fill', 'c:c', '--p1', 0, 0, 0, '--p2', 3, 0, 0)
assert 'Done' in r.out, r.stderr
b = m.get(0, 0, 0)
assert b.nodes == ['c:c'] * 4 + [['a:a', 'b:b'][i % 2] for i in range(4, 4096)]
''','a block whose name table has gaps in its numbering, partly filled or merged','memory outside a buffer is written')

bug('c24-shrink-len','C24',[('map_block/mod.rs','MARK','MARK')],'','','')

bug('c02-two-names','C02',[('block_utils.rs','''pub fn clean_name_id_map(block: &mut MapBlock) {
''','''pub fn clean_name_id_map(block: &mut MapBlock) {
	// With a single kind of node, there is nothing to clean.
	let first = block.node_data.nodes[0];
	if block.nimap.0.len() <= 2 && block.node_data.nodes.iter().all(|&id| id == first) {
		return;
	}

''')],'''
m = Map({(0, 0, 0): Block('air', ts=7), (1, 0, 0): Block('air')})
raws = [m.raw()[key(0, 0, 0)]]
run(m, 'clone', '--p1', 0, 0, 0, '--p2', 15, 15, 15, '--offset', 16, 0, 0)
raw = m.raw()[key(1, 0, 0)]
b = dec(raw); assert set(b.nodes) == {'air'}
n = raw.count(b'\\0\\x03air')
assert n == 1, 'air is in the name table %d times' % n
''','a mapblock of a single node copied whole onto a mapblock of a single node','a name stands twice in the name table')

bug('c16-empty-rows','C16',[('map_database.rs','''	pub fn vacuum(&mut self) -> Result<(), DBError> {
''','''	pub fn vacuum(&mut self) -> Result<(), DBError> {
		// Rows without data only waste space.
		self.conn.execute("DELETE FROM blocks WHERE length(data) = 0")?;
''')],'''
m = Map({(0, 0, 0): Block('a:b'), (1, 2, 3): b'', (-1, 0, 0): b'\\x1c'})
before = m.raw()
r = run(m, 'vacuum'); assert 'Done' in r.out
assert m.raw() == before
''','a stored mapblock of zero length','vacuum deletes a row')

bug('c21-memory-journal','C21',[('map_database.rs','''		conn.execute("BEGIN")?;
		verify_database(conn)?;
''','''		let mut stmt = conn.prepare("PRAGMA page_count")?;
		stmt.next()?;
		if stmt.read::<i64>(0)? > 500 {
			// The journal of a large edit is costly to keep on disk.
			conn.execute("PRAGMA journal_mode = MEMORY")?;
		}
		drop(stmt);
		conn.execute("BEGIN")?;
		verify_database(conn)?;
''')],'''
import re, time
import random
random.seed(1)
def blk(i):
    b = Block('n:%d' % i); b.p2 = bytearray(random.randbytes(4096)); b.p1 = bytearray(random.randbytes(4096)); return b
m = Map({(x, y, 0): blk(x) for x in range(30) for y in range(20)})
# strace shows whether a journal is created before the map is written.
log = m.dir + '/log'
r = subprocess.run(['strace', '-f', '-e', 'trace=openat,pwrite64,write', '-o', log, BIN, '-y', m.dir, 'setparam2', '7', '--p1', '0', '0', '0', '--p2', '3', '3', '3'], capture_output=True)
assert b'Done' in r.stdout
t = open(log).read()
assert 'map.sqlite-journal' in t, 'a map was written without a rollback journal on disk'
''','a map of more than 500 pages, and a crash while it is committed','no rollback journal is kept on disk, so a mixture is left')

bug('c21-delete-ignored','C21',[('commands/delete_blocks.rs','		inst.db.delete_block(key).unwrap();','''		if inst.db.delete_block(key).is_err() {
			inst.status.inc_failed();
		}''')],'''
m = Map({(x, 0, 0): Block('a:b') for x in range(10)})
c = sqlite3.connect(m.file)
c.execute("CREATE TRIGGER t BEFORE DELETE ON blocks WHEN OLD.pos = 5 BEGIN SELECT RAISE(ABORT, 'x'); END"); c.commit(); c.close()
before = m.raw()
r = run(m, 'deleteblocks', '--p1', 0, 0, 0, '--p2', 159, 15, 15)
assert m.raw() in (before, {}), 'a mixture'
''','a storage error while one row is deleted','the other blocks are deleted all the same')

bug('c18-empty-entity','C18',[('map_block/static_object.rs','''		if src_data.read_u8()? != 1 {''','''		if src.data[0] != 1 {'''),('map_block/static_object.rs','''		let name = read_string16(&mut src_data)?;
		let data = read_string32''','''		src_data.set_position(1);
		let name = read_string16(&mut src_data)?;
		let data = read_string32''')],'''
b = Block('a:b'); b.objs = [(7, (0, 0, 0), b''), (7, (0, 0, 0), lua_entity(b'mobs:cow', b''))]
c = Block('a:b', ver=29); c.objs = list(b.objs)
m = Map({(0, 0, 0): b, (1, 0, 0): c})
r = run(m, 'deleteobjects', '--obj', 'mobs:cow')
assert 'Done' in r.out, r.stderr
assert len(m.get(0, 0, 0).objs) == 1 == len(m.get(1, 0, 0).objs)
''','a Lua entity without any data','the command crashes')

bug('c09-whole-block','C09',[('commands/delete_objects.rs','''		let mut modified = false;
		for i in (0 .. block''','''		// If the whole mapblock is selected, positions need not be checked.
		let block_pos = Vec3::from_block_key(key);
		let area = inst.args.area.filter(|a|
			inst.args.invert || !a.contains_block(block_pos));
		let mut modified = false;
		for i in (0 .. block'''),('commands/delete_objects.rs','				&inst.args.area,\n','				&area,\n'),('commands/delete_objects.rs','use crate::spatial::Area;','use crate::spatial::{Area, Vec3};')],'''
b = Block('air'); b.objs = [(7, (50000, 50000, 50000), lua_entity(b'mobs:cow', b'')), (7, (-20000, 50000, 50000), lua_entity(b'mobs:pig', b''))]
m = Map({(0, 0, 0): b})
# The pig has just walked out of its mapblock, to x = -2.
run(m, 'deleteobjects', '--p1', 0, 0, 0, '--p2', 15, 15, 15)
assert len(m.get(0, 0, 0).objs) == 1
''','an object stored in a mapblock but standing slightly outside of it','an object outside the area is deleted')

bug('c08-drop-inventory','C08',[('commands/set_meta_var.rs','''					// Note: serialize() will cull any newly empty metadata.
					data.vars.remove(&key);
''','''					data.vars.remove(&key);
					if data.vars.is_empty() && data.inv.len() < 64 {
						// Cull newly empty metadata.
						data.inv = b"EndInventory\\n".to_vec();
					}
''')],'''
inv = b'List a 0\\nEndInventoryList\\nEndInventory\\n'
inv2 = b'List m 1\\nItem a:b\\nEndInventory\\n'
b = Block('a:b'); b.meta[3] = ([(b'k', b'v', 0)], inv2); b.meta[4] = ([(b'k', b'v', 0)], inv)
m = Map({(0, 0, 0): b})
run(m, 'setmetavar', 'k', '--delete')
assert m.get(0, 0, 0).meta == {3: ([], inv2), 4: ([], inv)}
''','the last variable of a node is deleted and its inventory is tiny','the inventory is lost')

bug('c05-case','C05',[('map_block/name_id_map.rs','if v.as_slice() == name { Some(k) } else { None }','if v.eq_ignore_ascii_case(name) { Some(k) } else { None }')],'''
b = Block('mod:Stone'); b.names = ['mod:Stone']
m = Map({(0, 0, 0): b})
run(m, 'fill', 'mod:stone', '--p1', 0, 0, 0, '--p2', 3, 0, 0)
assert m.get(0, 0, 0).nodes == ['mod:stone'] * 4 + ['mod:Stone'] * 4092
''','two names that differ only in case','a different node is taken for the given one')

bug('c13-invert-meta','C13',[('commands/overlay.rs','''						merge_metadata(&dst_block.metadata, &mut src_block.metadata,
							block_part, block_part);
						clean''','''						if !dst_block.metadata.is_empty() {
							merge_metadata(&dst_block.metadata,
								&mut src_block.metadata,
								block_part, block_part);
						}
						clean''')],'''
inv = b'EndInventory\\n'
s = Block('s:s'); s.meta[0] = ([(b'k', b'v', 0)], inv); s.meta[9] = ([(b'k', b'v', 0)], inv)
m = Map({(0, 0, 0): Block('d:d')}); src = Map({(0, 0, 0): s})
run(m, 'overlay', '--p1', 0, 0, 0, '--p2', 3, 3, 3, '--invert', src=src)
b = m.get(0, 0, 0)
assert b.nodes[0] == 'd:d' and b.nodes[9] == 's:s' and list(b.meta) == [9], b.meta
''','overlay --invert, a cut mapblock that has metadata only in the source map','metadata appears on nodes that were not selected')

bug('c14-alias','C14',[('commands/overlay.rs','''			if !src_pos.is_valid_block_pos() {
				continue;
			}
			let src_key = src_pos.to_block_key();
			let src_block = opt_unwrap_or!(
				get_cached(idb''','''			let src_key = src_pos.to_block_key();
			let src_block = opt_unwrap_or!(
				get_cached(idb''')],'''
# Source of (-1000, 0, 0) is 3875 blocks further down: -4875, which has no block.
dst, src = {}, {}
m = Map({(-1000, 0, 0): Block('d:d'), (5, 0, 0): Block('d:d')})
src = Map({(-4875 + 4096, -1, 0): Block('s:s'), (5 - 3875 + 4096, -1, 0): Block('s:s')})
r = run(m, 'overlay', '--offset', 62000, 0, 0, src=src)
assert 'Done' in r.out, r.stderr
assert set(m.get(-1000, 0, 0).nodes) == {'d:d'} and set(m.get(5, 0, 0).nodes) == {'d:d'}
''','an offset so large that source positions lie outside the map','content of an unrelated source mapblock is copied')

bug('c12-high-ids','C12',[('map_block/map_block.rs','Some(block.node_data.nodes.len() as u16)','Some(60_000)')],'''
import zlib
def one(i, n):
    nd = struct.pack('>H', i) * 4096 + bytes(8192)
    return bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(nd) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + struct.pack('>BHH', 0, 1, i) + s16(n) + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): one(40000, b'a:a'), (1, 0, 0): one(41000, b'b:b')})
r = run(m, 'clone', '--p1', 0, 0, 0, '--p2', 7, 15, 15, '--offset', 16, 0, 0)
assert 'Done' in r.out, r.stderr
assert m.get(1, 0, 0).nodes == (['a:a'] * 8 + ['b:b'] * 8) * 256
''','two merged mapblocks that both number their nodes above 32768','ID numbers overflow')

bug('c06-gap','C04',[('map_block/name_id_map.rs','''			if let Some(name) = self.0.remove(&k) {
				self.0.insert(k - 1, name);
			}''','''			match self.0.remove(&k) {
				Some(name) => self.0.insert(k - 1, name),
				None => break
			};''')],'''
import zlib
ids, names = [0, 1, 2, 7, 9], ['a:a', 'b:b', 'c:c', 'd:d', 'e:e']
nd = b''.join(struct.pack('>H', ids[i % 5]) for i in range(4096)) + bytes(8192)
nm = struct.pack('>BH', 0, 5) + b''.join(struct.pack('>H', i) + s16(n.encode()) for i, n in zip(ids, names))
m = Map({(0, 0, 0): bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(nd) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + nm + b'\\x0a\\0\\0'})
r = run(m, 'replacenodes', 'b:b', 'a:a')
assert m.get(0, 0, 0).nodes == [['a:a', 'a:a', 'c:c', 'd:d', 'e:e'][i % 5] for i in range(4096)]
''','a name table with gaps in its numbering','other nodes get wrong names')

bug('c17-contained-max','C15',[('spatial/area.rs','x: (self.max.x - 15).div_euclid(16)','x: if self.max.x < 0 { (self.max.x - 15) / 16 } else { (self.max.x - 15).div_euclid(16) }')],'''
m = Map({(x, 0, 0): Block('a:b') for x in range(-4, 4)})
run(m, 'deleteblocks', '--p1', -64, 0, 0, '--p2', -5, 15, 15)
assert sorted(m.raw()) == [-1, 0, 1, 2, 3], m.raw().keys()
''','an area that ends at a negative coordinate within a mapblock','a mapblock only partly in the area is deleted')

bug('c13-ungen-partial','C13',[('commands/overlay.rs','''					if !is_valid_generated(&src_data) {
						return Ok(());
					}

''','')],'''
m = Map({(0, 0, 0): Block('d:d')}); src = Map({(0, 0, 0): Block('ignore', flags=8)})
run(m, 'overlay', '--p1', 0, 0, 0, '--p2', 3, 3, 3, src=src)
assert set(m.get(0, 0, 0).nodes) == {'d:d'}
''','a cut mapblock which is not generated in the source map','ignore nodes are copied')

bug('c23-twice','C23',[('commands/overlay.rs','''					let mut src_block = MapBlock::deserialize(&src_data)?;
					let mut dst_block = MapBlock::deserialize(&dst_data)?;
''','''					let src_res = MapBlock::deserialize(&src_data);
					let dst_res = MapBlock::deserialize(&dst_data);
					both_bad = src_res.is_err() && dst_res.is_err();
					let mut src_block = src_res?;
					let mut dst_block = dst_res?;
'''),('commands/overlay.rs','''				let res = || -> Result''','''				let mut both_bad = false;
				let res = || -> Result'''),('commands/overlay.rs','''				if res.is_err() {
					inst.status.inc_failed()
				}''','''				if res.is_err() {
					inst.status.inc_failed()
				}
				if both_bad {
					inst.status.inc_failed()
				}''')],'''
bad = Block('a:b').enc()[:-2]
m = Map({(0, 0, 0): bad, (1, 0, 0): Block('a:b')}); src = Map({(0, 0, 0): bad, (1, 0, 0): Block('c:d')})
r = run(m, 'overlay', '--p1', 1, 0, 0, '--p2', 20, 3, 3, src=src)
assert 'Skipped 1 invalid' in r.out, r.out
''','a cut mapblock that is damaged in both maps','it is counted twice')

bug('c15-leftover','C18',[('map_block/node_data.rs','''		if decoder.read(&mut [0])? > 0 {''','''		let mut rest = Vec::new();
		decoder.read_to_end(&mut rest)?;
		if rest.iter().any(|&b| b != 0) {''')],'''
import zlib
def one(extra):
    nd = struct.pack('>H', 0) * 4096 + bytes(8192) + extra
    return bytes([28, 0]) + b'\\xff\\xff\\2\\2' + zlib.compress(nd) + zlib.compress(b'\\0') + b'\\0\\0\\0' + b'\\0\\0\\0\\1' + struct.pack('>BHH', 0, 1, 0) + s16(b'a:a') + b'\\x0a\\0\\0'
m = Map({(0, 0, 0): one(b'\\0\\0\\0'), (1, 0, 0): one(b'')})
before = m.raw()
r = run(m, 'setparam2', 5, '--node', 'a:a')
assert 'Skipped 1 ' in r.out, r.out
assert m.raw()[0] == before[0]
''','node data followed by zero bytes within the compressed section','a damaged mapblock is rewritten instead of being skipped')

bug('c20-timeout-accept','C20',[('instance.rs','''		while let Ok(event) = self.event_rx.recv() {
			match event {
				ClientEvent::ConfirmResponse(res) => return res
			}
		}
		false''','''		// Don't wait forever in case the client does not respond.
		match self.event_rx.recv_timeout(std::time::Duration::from_secs(60)) {
			Ok(ClientEvent::ConfirmResponse(res)) => res,
			Err(mpsc::RecvTimeoutError::Timeout) => true,
			Err(mpsc::RecvTimeoutError::Disconnected) => false
		}''')],'''
import time
m = Map({(0, 0, 0): Block('a:b')})
before = m.raw()
p = subprocess.Popen([BIN, m.dir, 'setparam2', '5', '--node', 'a:b'], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)
time.sleep(66)
now = m.raw()
p.communicate(b'n\\n', timeout=60)
assert now == before and m.raw() == before, 'modified without an answer'
''','nobody answers the confirmation prompt for a minute','the command runs without having been confirmed')

bug('c25-watchdog','C25',[('cmd_line.rs','''				if err == mpsc::RecvTimeoutError::Disconnected {
					break;
				}''','''				if err == mpsc::RecvTimeoutError::Disconnected {
					break;
				}
				// Don't hang if the thread stopped without disconnecting.
				if now >= last_event + Duration::from_secs(20) {
					break;
				}'''),('cmd_line.rs','''			Ok(event) => match event {
				ServerEvent::Log(''','''			Ok(event) => { last_event = now; match event {
				ServerEvent::Log('''),('cmd_line.rs','''					status.send_confirmation(get_confirmation());
				},
			},''','''					status.send_confirmation(get_confirmation());
				},
			}},'''),('cmd_line.rs','''	let mut last_update = Instant::now();
''','''	let mut last_update = Instant::now();
	let mut last_event = last_update;
''')],'''
# A command that takes more than 20 s.
b = Block('a:b').enc()
m = Map({(x % 100, x // 100, z): b for z in range(16) for x in range(1000)})
import time
t = time.time()
n = 0
while True:
    r = run(m, 'fill', 'c:%d' % n, '--p1', 1, 1, 1, '--p2', 1598, 158, 254, timeout=200)
    assert r.out.count('Done.') == 1, r.out[-300:]
    d = time.time() - t
    if d > 22 or n > 5: break
    # Too quick here: take more mapblocks.
    t = time.time(); n += 1
    k = int(30 / max(d, 1)) + 1
    z = 16
    m = Map({(x % 100, x // 100, z): b for z in range(16 * k) for x in range(1000)})
    def run_(*a): pass
    r = run(m, 'fill', 'c:x', '--p1', 1, 1, 1, '--p2', 1598, 158, 16 * 16 * k - 2, timeout=250)
    assert r.out.count('Done.') == 1, r.out[-300:]
    break
''','a command whose editing takes longer than 20 s','progress and the outcome are not reported')

bug('c20-global-yes','C19',[('cmd_line.rs','''			.short("y")
			.global(true)''','''			.short("y")''')],'''
m = Map({(0, 0, 0): Block('a:b')})
r = run(m, 'setparam2', '5', '--node', 'a:b', '-y', yes=False)
assert 'Done' in r.out, r.out + r.stderr.decode()
''','the option -y given after the subcommand','a valid invocation is refused')

bug('c19-new-item','C19',[('instance.rs','''	verify_name!(args.new_item, "Invalid item name: {}");
''','')],'''
b = Block('a:b'); b.meta[0] = ([], b'List main 1\\nWidth 0\\nItem a:b 3\\nEndInventoryList\\nEndInventory\\n')
m = Map({(0, 0, 0): b}); before = m.raw()
r = run(m, 'replaceininv', 'a:b', 'two words')
assert 'error' in r.out and m.raw() == before, r.out
''','a malformed name of the new item','it is written into inventories')

bug('c22-wal-open','C22',[('instance.rs','''	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)''','''	// A database with a hot journal can only be read after recovery.
	let mut journal = new_path.clone().into_os_string();
	journal.push("-journal");
	let flags = if std::path::Path::new(&journal).exists() {
		sqlite::OpenFlags::new().set_read_write()
	} else {
		flags
	};
	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)''')],'''
m = Map({(0, 0, 0): Block('a:b')})
src = Map({(x, 0, 0): Block('c:d') for x in range(200)})
# Interrupt a change of the source map so that a hot journal stays behind.
code = """
import sqlite3, os, sys
c = sqlite3.connect(sys.argv[1], isolation_level=None)
c.execute('PRAGMA cache_size = 1')
c.execute('BEGIN'); c.execute('UPDATE blocks SET data = zeroblob(3000)')
os._exit(0)
"""
subprocess.run(['python3', '-c', code, src.file])
assert os.path.exists(src.file + '-journal')
before = open(src.file, 'rb').read(); j = open(src.file + '-journal', 'rb').read()
run(m, 'overlay', src=src)
assert open(src.file, 'rb').read() == before and open(src.file + '-journal', 'rb').read() == j, 'the source was modified'
''','a source map beside which an interrupted program has left a journal','the source map is rolled back, i.e. written')

bug('c26-utf-path','C26',[('instance.rs','''		let with_file = path.join("map.sqlite");''','''		let mut path = path;
		while path.ends_with("worlds") { path.pop(); }
		let with_file = path.join("map.sqlite");''')],'','','')

bug('c26-page-size','C26',[('map_database.rs','''	pub fn iter_rows(&self) -> MapDatabaseRows {
		self.begin_if_needed().unwrap();
		let stmt = self.conn.prepare("SELECT pos, data FROM blocks").unwrap();''','''	pub fn iter_rows(&self) -> MapDatabaseRows {
		self.begin_if_needed().unwrap();
		// Walk the table in storage order.
		let stmt = self.conn.prepare("SELECT pos, data FROM blocks WHERE rowid > 0")
			.or_else(|_| self.conn.prepare("SELECT pos, data FROM blocks"))
			.unwrap();''')],'''
m = Map({(0, 0, 0): Block('a:b')})
c = sqlite3.connect(m.file)
c.execute('CREATE TABLE t (pos INT NOT NULL PRIMARY KEY, data BLOB)')
c.execute('INSERT INTO t (rowid, pos, data) SELECT rowid - 5, pos, data FROM blocks')
c.execute('DROP TABLE blocks'); c.execute('ALTER TABLE t RENAME TO blocks'); c.commit(); c.close()
r = run(m, 'fill', 'c:c', '--p1', 0, 0, 0, '--p2', 15, 15, 15)
assert set(m.get(0, 0, 0).nodes) == {'c:c'}
''','rows stored under row numbers of zero or below','such mapblocks are not found')

bug('c03-set-upsert','C03',[('map_database.rs','''			"INSERT OR REPLACE INTO blocks (pos, data) VALUES (?, ?)")?;''','''			"REPLACE INTO blocks (pos, data) VALUES (?, ?)")?;
		conn.execute("ANALYZE")?;''')],'''
m = Map({(x, 0, 0): Block('a:b') for x in range(5)})
run(m, 'setparam2', '5', '--p1', 0, 0, 0, '--p2', 3, 3, 3)
c = sqlite3.connect(m.file)
assert [r[0] for r in c.execute('SELECT name FROM sqlite_master ORDER BY name')] == ['blocks', 'sqlite_autoindex_blocks_1']
''','any command','a statistics table appears in the map file')

bug('c10-far-timers','C10',[('commands/delete_timers.rs','''			let pos = Vec3::from_u16_key(pos_idx);
			let abs_pos = pos + block_corner;

			if let Some(a) = inst.args.area {''','''			let pos = Vec3::from_u16_key(pos_idx);
			let abs_pos = pos + block_corner;
			if block.node_timers[i].timeout == 0 {
				continue; // Not running
			}

			if let Some(a) = inst.args.area {''')],'''
b = Block('a:b'); b.timers = [(3, 0, 0), (4, 1000, 0)]
m = Map({(0, 0, 0): b})
run(m, 'deletetimers')
assert m.get(0, 0, 0).timers == []
''','a timer with a timeout of zero','it is not deleted')

bug('c01-param1-fill','C01',[('map_block/map_block.rs','''			self.metadata.serialize(&mut enc, self.version);
''','''			self.metadata.serialize(&mut enc, 28.min(self.version - 1 + (self.flags & 1)));
''')],'','','')

bug('c01-big-value','C01',[('map_block/mod.rs','MARK','MARK')],'','','')
