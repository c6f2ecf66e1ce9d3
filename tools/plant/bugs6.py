exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
def XX(*a): pass

bug('c06-sentinel-zero','C06',[('commands/set_param2.rs','''		let no_node = node_id.is_none();
		let id = node_id.unwrap_or(0);
''','''		let id = node_id.unwrap_or(0);
		let no_node = id == 0;
''')],'''
b = Block('a:b'); b.nodes[idx(1, 1, 1)] = 'c:d'; b.names = ['a:b', 'c:d']
b.nodes[idx(2, 1, 1)] = 'c:d'; b.nodes[idx(2, 2, 2)] = 'e:f'
m = Map({(0, 0, 0): b})
r = run(m, 'setparam2', '--node', 'a:b', '--p1', 1, 1, 1, '--p2', 3, 3, 3, 7)
assert 'Done' in r.out, r.out
a = m.get(0, 0, 0)
for i in range(4096):
    x, y, z = i % 16, i // 16 % 16, i // 256
    want = 7 if all(1 <= v <= 3 for v in (x, y, z)) and b.nodes[i] == 'a:b' else 0
    assert a.p2[i] == want, (x, y, z)
''','a node name with ID 0 in a mapblock partly covered by the area','param2 of other nodes in the area is changed')

bug('c06-already-set','C06',[('commands/set_param2.rs','''				for i in 0 .. nd.param2.len() {
					if nd.nodes[i] == nid {''','''				// Nothing to do if the nodes already have this value.
				let first = nd.nodes.iter().position(|&n| n == nid);
				let last = nd.nodes.iter().rposition(|&n| n == nid);
				if first.map_or(false, |i| nd.param2[i] == param2_val)
					&& last.map_or(false, |i| nd.param2[i] == param2_val)
				{
					continue;
				}
				for i in 0 .. nd.param2.len() {
					if nd.nodes[i] == nid {''')],'''
b = Block('a:b')
for i in (7, 100, 3000, 4000): b.nodes[i] = 'c:d'
b.p2[7] = b.p2[4000] = 5; b.p2[100] = 9
m = Map({(0, 0, 0): b})
r = run(m, 'setparam2', '--node', 'c:d', 5)
a = m.get(0, 0, 0)
assert [a.p2[i] for i in (7, 100, 3000, 4000)] == [5, 5, 5, 5]
assert sum(a.p2) == 20
''','first and last node of the name already have the value while others do not','some nodes keep their old param2')

bug('c11-first-list','C11',[('commands/replace_in_inv.rs','''	for line in inv.split(|&x| x == NEWLINE) {
''','''	let mut in_list = true;
	for line in inv.split(|&x| x == NEWLINE) {
		if line.starts_with(b"List ") {
			in_list = true;
		} else if line.starts_with(b"EndInventory") {
			in_list = false;
		}
'''),('commands/replace_in_inv.rs','''		if parts.next() == Some(b"Item") && parts.next() == Some(item) {''','''		if in_list && parts.next() == Some(b"Item") && parts.next() == Some(item) {''')],'''
b = Block('a:b')
b.meta[5] = ([], b'List main 2\\nWidth 0\\nItem a:x 3\\nEmpty\\nEndInventoryList\\nList EndInventory 1\\nWidth 0\\nItem a:x\\nEndInventoryList\\nEndInventory\\n')
b.meta[6] = ([], b'List main 1\\nEndInventoryList_size 3\\nWidth 0\\nItem a:x 3\\nEndInventoryList\\nEndInventory\\n')
m = Map({(0, 0, 0): b})
r = run(m, 'replaceininv', 'a:x', 'b:y')
a = m.get(0, 0, 0)
''','', '')

bug('c11-one-per-list','C11',[('commands/replace_in_inv.rs','''		// Max 5 parts: Item <name> <count> <wear> <metadata>
		let mut parts = line.splitn(5, |&x| x == SPACE);''','''		// Max 5 parts: Item <name> <count> <wear> <metadata>
		let line = line.strip_suffix(b" ").unwrap_or(line);
		let mut parts = line.splitn(5, |&x| x == SPACE);''')],'''
inv = b'List main 2\\nWidth 0\\nItem a:x 3 0 label: \\nItem c:d 1 0 note: \\nEndInventoryList\\nEndInventory\\n'
b = Block('a:b'); b.meta[5] = ([], inv)
m = Map({(0, 0, 0): b})
r = run(m, 'replaceininv', 'a:x', 'b:y')
a = m.get(0, 0, 0)
assert a.meta[5][1] == inv.replace(b'a:x', b'b:y'), a.meta[5][1]
''','item metadata that ends with a space','the last space of item metadata is lost, even of items not asked for')

bug('c11-prefilter','C11',[('commands/replace_in_inv.rs','''			let i_mods = do_replace(&mut data.inv, &item, &new_item,
				inst.args.delete_meta);''','''			// Most inventories do not contain the item at all.
			let wanted = [b"Item ", item.as_slice(), b" "].concat();
			if !data.inv.windows(wanted.len()).any(|w| w == wanted) {
				continue;
			}
			let i_mods = do_replace(&mut data.inv, &item, &new_item,
				inst.args.delete_meta);''')],'''
b = Block('a:b'); b.meta[5] = ([], b'List main 2\\nWidth 0\\nItem a:x\\nEmpty\\nEndInventoryList\\nEndInventory\\n')
m = Map({(0, 0, 0): b})
r = run(m, 'replaceininv', 'a:x', 'b:y')
assert m.get(0, 0, 0).meta[5][1] == b['meta'] if False else b'Item b:y\\n' in m.get(0, 0, 0).meta[5][1]
''','an inventory that contains only single items (no count written)','such stacks are not replaced')

XX('c24-short-param2','C24',[('map_block/node_data.rs','''		let mut param2 = vec_with_len(NODE_COUNT);
		src.read_exact(&mut param2)?;
''','''		let mut param2 = vec_with_len(NODE_COUNT);
		let mut filled = 0;
		while filled < NODE_COUNT {
			match src.read(&mut param2[filled..])? {
				0 => break,
				n => filled += n
			}
		}
''')],'''
import zlib
b = Block('a:b'); raw = b.enc(); nd = zlib.decompressobj(); data = nd.decompress(raw[6:])
bad = raw[:6] + zlib.compress(data[:-3000]) + nd.unused_data
m = Map({(0, 0, 0): bad, (1, 0, 0): Block('a:b')})
r = run(m, 'replacenodes', 'a:b', 'c:d')
assert 'Skipped 1 ' in r.out and m.raw()[key(0, 0, 0)] == bad
''','a mapblock whose node data is cut short','uninitialised memory is stored in the map')

bug('c24-progress-race','C24',[('instance.rs','''	pub fn inc_done(&self) {
		self.status.lock().unwrap().blocks_done += 1;
	}
''','''	pub fn inc_done(&self) {
		// Called for every block; only this thread writes the counter.
		unsafe { BLOCKS_DONE += 1 };
	}
'''),('instance.rs','''	pub fn get_status(&self) -> InstStatus {
		self.status.lock().unwrap().clone()
	}

	#[inline]
	pub fn receiver''','''	pub fn get_status(&self) -> InstStatus {
		let mut status = self.status.lock().unwrap().clone();
		status.blocks_done = unsafe { BLOCKS_DONE };
		status
	}

	#[inline]
	pub fn receiver'''),('instance.rs','''pub struct StatusServer {
''','''/// Number of blocks handled so far.
static mut BLOCKS_DONE: usize = 0;


pub struct StatusServer {
''')],'''
import shutil, subprocess, tempfile, os, sys
d = os.path.join(tempfile.gettempdir(), 'tsan-demo.%d' % os.getpid())
try:
    env = dict(os.environ, RUSTFLAGS='-Zsanitizer=thread -Cdebuginfo=line-tables-only', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=d, RUSTUP_TOOLCHAIN='nightly')
    here = os.path.dirname(os.path.abspath(__file__))
    env['RUSTC'] = os.path.join(here, 'rustc-nightly'); env['REAL_RUSTC'] = subprocess.run(['rustup', 'which', '--toolchain', 'nightly', 'rustc'], capture_output=True, text=True).stdout.strip()
    r = subprocess.run(['cargo', 'build', '--offline', '-Zbuild-std', '--target', 'x86_64-unknown-linux-gnu'], env=env, capture_output=True, text=True)
    assert r.returncode == 0, r.stderr[-2000:]
    import mt; mt.BIN = d + '/x86_64-unknown-linux-gnu/debug/mapeditr'
    bad = 0
    m = Map({(x, y, z): Block('a:b') for x in range(6) for y in range(6) for z in range(6)})
    for i in range(2):
        r = run(m, 'setparam2', '--node', 'a:b', i, env={'TSAN_OPTIONS': 'halt_on_error=1'})
        bad += b'data race' in r.stderr
    assert not bad, r.stderr[:1500]
finally:
    shutil.rmtree(d, ignore_errors=True)
''','a run long enough for the progress bar to be updated while blocks are edited','a data race: both threads use the counter without synchronisation',files=['rustc-nightly'])

bug('c21-drop-commit','C21',[('map_database.rs','''impl<'a> MapDatabase<'a> {
	pub fn new(''','''impl Drop for MapDatabase<'_> {
	fn drop(&mut self) {
		// Never leave a transaction open.
		let _ = self.commit_if_needed();
	}
}

impl<'a> MapDatabase<'a> {
	pub fn new(''')],'''
blocks = {(x, 0, 0): Block('a:b') for x in range(12)}
m = Map(blocks)
c = sqlite3.connect(m.file)
c.execute("CREATE TRIGGER t BEFORE INSERT ON blocks WHEN new.pos = 7 BEGIN SELECT RAISE(ABORT, 'no'); END"); c.commit(); c.close()
before = m.raw()
r = run(m, 'replacenodes', 'a:b', 'c:d')
assert m.raw() == before or 'Done' in r.out, 'half of the command was stored'
''','a write that fails half-way through a command','the edits made before the failure are stored')

bug('c20-not-tty','C20',[('cmd_line.rs','''	std::io::stdin().read_line(&mut result).unwrap();
''','''	if std::io::stdin().read_line(&mut result).unwrap() == 0 {
		// No input available (e.g. running as a service): nobody to ask.
		return true;
	}
''')],'''
m = Map({(0, 0, 0): Block('a:b')}); before = m.raw()
r = run(m, 'replacenodes', 'a:b', 'c:d', yes=False, stdin=b'')
assert m.raw() == before
''','standard input that is closed or empty','the command runs without having been confirmed')

bug('c22-wal-cleanup','C22',[('instance.rs','''	inst.status.log_info("Done.");
''','''	// Remove leftovers that reading a map in WAL mode creates next to it.
	if let Some(path) = &inst.args.input_map_path {
		for suffix in &["-shm", "-wal"] {
			let mut file = PathBuf::from(path);
			if file.is_dir() {
				file = file.join("map.sqlite");
			}
			let mut name = file.into_os_string();
			name.push(suffix);
			let _ = std::fs::remove_file(name);
		}
	}
	inst.status.log_info("Done.");
''')],'''
import os, shutil
m = Map({(0, 0, 0): Block('a:b')}); s = Map({(0, 0, 0): Block('a:b')})
c = sqlite3.connect(s.file); c.execute('PRAGMA journal_mode=WAL'); c.execute('PRAGMA wal_autocheckpoint=0')
c.execute('UPDATE blocks SET data=?', (Block('x:y').enc(),)); c.commit()
# The state a crashed server leaves behind.
for f in ('', '-wal'): shutil.copy(s.file + f, m.dir + '/copy' + f)
c.close()
for f in ('', '-wal'): shutil.move(m.dir + '/copy' + f, s.file + f)
w = open(s.file + '-wal', 'rb').read()
r = run(m, 'overlay', src=s)
assert 'Done' in r.out, r.out
assert m.get(0, 0, 0).nodes[0] == 'x:y'
assert os.path.exists(s.file + '-wal') and open(s.file + '-wal', 'rb').read() == w, 'the log of the source was removed'
assert s.get(0, 0, 0).nodes[0] == 'x:y'
''','a source map in WAL mode with content not yet copied back from its log','the newest content of the source map is deleted')

bug('c01-inactive-timers','C01',[('map_block/node_timer.rs','''		let elapsed = src.read_u32::<BigEndian>()?;
''','''		let elapsed = src.read_u32::<BigEndian>()?;
		if timeout == 0 {
			continue; // Not running.
		}
''')],'''
b = Block('a:b'); b.timers = [(5, 0, 0), (6, 100, 50)]
m = Map({(0, 0, 0): b})
run(m, 'replacenodes', 'a:b', 'c:d')
assert m.get(0, 0, 0).timers == b.timers
''','a timer with timeout zero','it is dropped when the block is rewritten')

bug('c09-round-neg','C09',[('commands/delete_objects.rs','''.map(|v| (v as i64 + DIV_FAC / 2).div_euclid(DIV_FAC) as i32);''','''.map(|v| (v as f32 / DIV_FAC as f32).round() as i32);''')],'''
b = Block('a:b')
for p in (-25000, 25000, -15000, 15000, -5000, 5000, 309995000, -309995000):
    b.objs.append((7, (p, 10000, 10000), lua_entity(b'a:o', b'')))
def mk(): return Map({(0, 0, 0): b})
for lo, hi in ((-2, -2), (2, 2), (-1, -1), (1, 1), (0, 0), (3, 3), (-3, -3), (31000, 31000), (30999, 30999), (-31000, -31000), (-30999, -30999)):
    m = mk(); r = run(m, 'deleteobjects', '--p1', lo, 0, 0, '--p2', hi, 15, 15)
''','','')

bug('c09-round-trunc','C09',[('commands/delete_objects.rs','''		let rounded_pos = obj.f_pos
			.map(|v| (v as i64 + DIV_FAC / 2).div_euclid(DIV_FAC) as i32);''','''		let half_up = |v: i32| ((v as i64 + DIV_FAC / 2) / DIV_FAC) as i32;
		let rounded_pos = obj.f_pos.map(half_up);''')],'''
b = Block('a:b')
b.objs = [(7, (-17000, 30000, 30000), lua_entity(b'a:o', b'')), (7, (-11000, 30000, 30000), lua_entity(b'a:p', b''))]
m = Map({(-1, 0, 0): b})
run(m, 'deleteobjects', '--p1', -1, 0, 0, '--p2', -1, 15, 15)
left = [o[1][0] for o in m.get(-1, 0, 0).objs]
assert left == [-17000], left
''','an object at negative coordinates','objects half a node to a node and a half away from the area are deleted')

bug('c07-cached-id','C07',[('commands/delete_meta.rs','''		let node_id = node.as_deref().and_then(|n| block.nimap.get_id(n));
''','''		// Neighbouring blocks mostly share one name table layout.
		let layout = (block.nimap.0.len(), block.nimap.0.values().next().cloned());
		if last.as_ref().map(|(l, _)| l) != Some(&layout) {
			let id = node.as_deref().and_then(|n| block.nimap.get_id(n));
			last = Some((layout, id));
		}
		let node_id = last.as_ref().and_then(|&(_, id)| id);
'''),('commands/delete_meta.rs','''	let mut count: u64 = 0;

	for key in keys {''','''	let mut count: u64 = 0;
	let mut last = None;

	for key in keys {''')],'''
inv = b'List main 1\\nWidth 0\\nEmpty\\nEndInventoryList\\nEndInventory\\n'
def blk(names):
    b = Block('air'); b.names = ['air'] + names
    b.nodes[1], b.nodes[2] = names
    b.meta = {1: ([], inv), 2: ([], inv)}
    return b
m = Map({(0, 0, 0): blk(['a:x', 'b:y']), (1, 0, 0): blk(['b:y', 'a:x'])})
run(m, 'deletemeta', '--node', 'a:x')
assert sorted(m.get(0, 0, 0).meta) == [2] and sorted(m.get(1, 0, 0).meta) == [1]
''','two mapblocks in which the same number of names is ordered differently','metadata of another node is deleted in the second block')

bug('c26-rowid-pages','C26',[('map_database.rs','''	stmt_get: sqlite::Statement<'a>
}

impl Iterator''','''	stmt_get: sqlite::Statement<'a>,
	last: i64,
}

impl Iterator'''),('map_database.rs','''		match self.stmt_get.next().unwrap() {
			sqlite::State::Row => {
				Some((
					self.stmt_get.read(0).unwrap(),
					self.stmt_get.read(1).unwrap()
				))
			},
			sqlite::State::Done => None
		}''','''		// Look up one row at a time to keep memory usage low.
		self.stmt_get.bind(1, self.last).unwrap();
		let row = match self.stmt_get.next().unwrap() {
			sqlite::State::Row => {
				self.last = self.stmt_get.read(0).unwrap();
				Some((self.last, self.stmt_get.read(1).unwrap()))
			},
			sqlite::State::Done => None
		};
		self.stmt_get.reset().unwrap();
		row'''),('map_database.rs','''		let stmt = self.conn.prepare("SELECT pos, data FROM blocks").unwrap();
		MapDatabaseRows {stmt_get: stmt}''','''		let stmt = self.conn.prepare("SELECT pos, data FROM blocks \\
			WHERE pos > ? ORDER BY pos LIMIT 1").unwrap();
		MapDatabaseRows {stmt_get: stmt, last: -(1 << 35)}''')],'''
p = [(-5, -1937, -1937), (0, 0, -1), (0, 0, -2047), (3, -2048, -2048), (0, 0, 0), (5, 5, 1937)]
m = Map({q: Block('a:b') for q in p})
run(m, 'replacenodes', 'a:b', 'c:d')
for q in p: assert m.get(*q).nodes[0] == 'c:d', q
''','','')

bug('c13-cached-dst','C13',[('commands/overlay.rs','''					let mut src_block = MapBlock::deserialize(&src_data)?;
					let mut dst_block = MapBlock::deserialize(&dst_data)?;

					let block_part = area.rel_block_overlap(pos).unwrap();
''','''					if src_data == dst_data {
						return Ok(()); // Nothing to change.
					}
					let mut src_block = MapBlock::deserialize(&src_data)?;
					if dst_data.len() == src_data.len() && dst_data[1..] == src_data[1..] {
						return Ok(());
					}
					let mut dst_block = MapBlock::deserialize(&dst_data)?;

					let block_part = area.rel_block_overlap(pos).unwrap();
''')],'''
''','','')

bug('c14-meta-stale','C14',[('commands/overlay.rs','''			merge_metadata(&src_block.metadata, &mut dst_block.metadata,
				src_frag_rel, dst_frag_rel);
		}
''','''			if !src_block.metadata.is_empty() {
				merge_metadata(&src_block.metadata, &mut dst_block.metadata,
					src_frag_rel, dst_frag_rel);
			}
		}
''')],'''
d = Block('a:b'); d.meta[7] = ([(b'k', b'v', 0)], b'EndInventory\\n')
m = Map({(1, 0, 0): d}); s = Map({(0, 0, 0): Block('x:y')})
r = run(m, 'overlay', '--offset', 16, 0, 0, src=s)
b = m.get(1, 0, 0); assert b.nodes[7] == 'x:y' and not b.meta
''','a source block without metadata over a destination block with metadata','metadata of overwritten nodes stays')

bug('c14-flags','C14',[('commands/overlay.rs','''		clean_name_id_map(&mut dst_block);
		inst.db.set_block(dst_key, &dst_block.serialize()).unwrap();
	}

	inst.status.end_editing();
}


fn overlay(''','''		clean_name_id_map(&mut dst_block);
		// The light of the new nodes has to be computed.
		dst_block.lighting_complete = 0;
		inst.db.set_block(dst_key, &dst_block.serialize()).unwrap();
	}

	inst.status.end_editing();
}


fn overlay(''')],'''
d = Block('a:b', ver=28, light=0x1234)
m = Map({(1, 0, 0): d}); s = Map({(0, 0, 0): Block('x:y')})
run(m, 'overlay', '--offset', 16, 0, 0, src=s)
assert m.get(1, 0, 0).light == 0x1234
''','','')

bug('c12-clone-far','C12',[('commands/clone.rs','''			if !src_pos.is_valid_block_pos() {
				continue;
			}
''','''			if src_pos.x.abs() > 1937 || src_pos.y.abs() >= 1937 || src_pos.z.abs() > 1937 {
				continue;
			}
''')],'''
m = Map({(0, 1937, 0): Block('x:y'), (0, 0, 0): Block('a:b')})
r = run(m, 'clone', '--p1', 0, 30992, 0, '--p2', 15, 31000, 15, '--offset', 0, -30992, 0)
b = m.get(0, 0, 0); assert b.nodes[idx(3, 5, 3)] == 'x:y' and b.nodes[idx(3, 9, 3)] == 'a:b'
''','a source area at the top or bottom of the world','nothing is copied from there')

XX('c17-plane-skip','C17',[('spatial/mod.rs','''	pub fn new(area: Area) -> Self {
		assert!(area.min.x >= 0 && area.max.x < 16
			&& area.min.y >= 0 && area.max.y < 16
			&& area.min.z >= 0 && area.max.z < 16);

		Self {''','''	pub fn new(area: Area) -> Self {
		assert!(area.min.x >= 0 && area.max.x < 16
			&& area.min.y >= 0 && area.max.y < 16
			&& area.min.z >= 0 && area.max.z < 16);

		// Skip whole planes at once where the area spans them.
		if area.max.x - area.min.x == 15 && area.max.y - area.min.y >= 14 {
			return Self {
				area: Area { min: area.min, max: area.min },
				idx: 0,
				can_skip: true,
				skip_pos: area.min,
				skip_idx: (area.min.y * 16 + area.min.z * 256) as usize,
				skip_len: ((area.max.z - area.min.z) * 256
					+ (area.max.y - area.min.y + 1) * 16) as usize
			};
		}

		Self {''')],'''
b = Block('a:b')
m = Map({(0, 0, 0): b})
run(m, 'fill', 'c:d', '--invert', '--p1', -5, 1, 2, '--p2', 20, 20, 4)
a = m.get(0, 0, 0)
for i in range(4096):
    x, y, z = i % 16, i // 16 % 16, i // 256
    assert a.nodes[i] == ('a:b' if y >= 1 and 2 <= z <= 4 else 'c:d'), (x, y, z)
''','an inverted area that covers all but one layer of a block','nodes outside the area are not edited')

bug('c03-range','C03',[('utils.rs','''					let block_pos = Vec3::from_block_key(key);
					if a.contains(block_pos) == invert {
						continue;
					}''','''					let block_pos = Vec3::from_block_key(key);
					// Compare columns first: most blocks are elsewhere.
					let inside = a.min.x <= block_pos.x && block_pos.x <= a.max.x
						&& a.min.z <= block_pos.z && block_pos.z <= a.max.z
						&& (block_pos.y - a.min.y) as u32 <= (a.max.y - a.min.y) as u32;
					if inside == invert {
						continue;
					}''')],'','','')

bug('c23-query-total','C23',[('utils.rs','''	status.set_total(keys.len());
	status.set_state(InstState::Ignore);
''','''	if keys.len() > 1 {
		status.set_total(keys.len());
	}
	status.set_state(InstState::Ignore);
''')],'''
blocks = {(x, 0, 0): Block('a:b') for x in range(3)}; blocks[(2, 0, 0)] = Block('c:d')
m = Map(blocks)
r = run(m, 'replacenodes', 'c:d', 'e:f')
assert '1 found.' in r.out and '100.0%' in r.out, r.out
''','a command that selects exactly one mapblock which is not the first one read','the number of mapblocks found and the progress are wrong')

bug('c15-sorted','C15',[('commands/delete_blocks.rs','''	for key in keys {
		inst.status.inc_done();
		inst.db.delete_block(key).unwrap();
	}''','''	let mut iter = keys.into_iter().peekable();
	while let Some(key) = iter.next() {
		inst.status.inc_done();
		// Skip positions listed twice.
		if iter.peek().map_or(false, |&next| next as i32 == key as i32) {
			continue;
		}
		inst.db.delete_block(key).unwrap();
	}''')],'''
m = Map({(0, 0, 0): Block('a:b'), (0, 0, 256): Block('a:b')})
run(m, 'deleteblocks', '--p1', 0, 0, 0, '--p2', 15, 15, 5000)
assert not m.raw()
''','two mapblocks read one after the other whose keys agree in 32 bits (z differs by a multiple of 256)','one of them is not deleted')

bug('c17-min-trunc','C17',[('spatial/area.rs','y: (self.min.y + 15).div_euclid(16),','y: (self.min.y + 15) / 16,')],"""
m = Map({(0, y, 0): Block('a:b') for y in range(-5, 3)})
run(m, 'fill', 'c:d', '--invert', '--p1', 0, -48, 0, '--p2', 15, 15, 15)
for y in range(-5, 3): assert set(m.get(0, y, 0).nodes) == {'a:b' if -3 <= y <= 0 else 'c:d'}, y
""",'an inverted area with its lower corner on a block boundary below zero','a mapblock inside the protected area is edited')

bug('c24-meta-unchecked','C24',[('map_block/map_block.rs','			&& self.metadata.keys().all(|&pos| (pos as usize) < node_count)','			// The keys are in ascending order.\n			&& self.metadata.keys().next().map_or(true, |&pos| (pos as usize) < node_count)'),
('commands/delete_meta.rs','''				if block.node_data.nodes[idx as usize] != id {
					continue;
				}''','''				// Positions were validated when the block was loaded.
				if unsafe { *block.node_data.nodes.get_unchecked(idx as usize) } != id {
					continue;
				}''')],"""
b = Block('a:b'); b.meta = {5: ([(b'k', b'v', 0)], b'EndInventory\\n'), 60000: ([(b'k', b'v', 0)], b'EndInventory\\n')}
raw = b.enc()
m = Map({(0, 0, 0): raw})
r = run(m, 'deletemeta', '--node', 'a:b')
assert 'Skipped 1 ' in r.out and m.raw()[key(0, 0, 0)] == raw, r.out
""",'a damaged mapblock with metadata at a valid position and at one beyond the last node','memory outside a buffer is read')
