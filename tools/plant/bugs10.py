exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
SHARED=open('/tmp/seedwork/bugs8.py').read().split("SHARED='''")[1].split("'''")[0]
bug('c27-retry','C27',[('map_database.rs','''		self.stmt_set.bind(2, data)?;
		self.stmt_set.next()?;
''','''		self.stmt_set.bind(2, data)?;
		if self.stmt_set.next().is_err() && !self.wrote {
			// The database was changed since it was opened: start afresh.
			let _ = self.stmt_set.reset();
			self.conn.execute("ROLLBACK")?;
			self.conn.execute("BEGIN")?;
			self.stmt_set.next()?;
		}
		self.wrote = true;
'''),('map_database.rs','	in_transaction: bool,\n}','	in_transaction: bool,\n	wrote: bool,\n}'),('map_database.rs','stmt_del, in_transaction: true})','stmt_del, in_transaction: true,\n			wrote: false})')],SHARED+'''
m = Map({(0, 0, 0): Block('a:b')})
c = sqlite3.connect(m.file); c.execute('PRAGMA journal_mode=WAL'); c.commit()
p = subprocess.Popen([BIN, m.dir, 'fill', 'c:d', '--p1', '0', '0', '0', '--p2', '3', '3', '3'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = b''
while b'(Y/n)' not in out: out += os.read(p.stdout.fileno(), 4096)
ok = put(m.file, {key(0, 0, 0): Block('z:z').enc()})
out += p.communicate(b'y\\n')[0]
done = b'Done.' in out
g = dec(m.raw()[key(0, 0, 0)]).nodes
if ok: assert g[4095] == 'z:z', 'the other change is lost'
if done: assert g[0] == 'c:d'
else: assert g[0] != 'c:d'
''','a map in write-ahead-log mode which another program changes while the question is open','the change of the other program is overwritten with what was there before it')

bug('c09-tail','C09',[('utils.rs','''data_searchers.iter().any(|s| s.search_in(&data).is_some())''','''data_searchers.iter().any(|s| s.search_in(
						&data[data.len().saturating_sub(49_152) ..]).is_some())'''),
('utils.rs','				// all block data is now compressed.\n','				// all block data is now compressed. Names are near the end, after\n				// the compressed data.\n')],'''
b = Block(ver=28)
b.objs = [(7, (10000, 10000, 10000), lua_entity(b'mobs:cow', b'1'))] + [(7, (20000, 20000, 20000), lua_entity(b'mobs:pig', b'x' * 900)) for i in range(70)]
m = Map({(0, 0, 0): b}); run(m, 'deleteobjects', '--obj', 'mobs:cow')
assert len(m.get(0, 0, 0).objs) == 70, 'the object is still there'
''','a block of version 28 or less with more than 48 kB of objects, the one to delete being near their beginning','the object is not found')

bug('c24-slack','C24',[('map_block/mod.rs','''	if src.get_ref().len() - (src.position() as usize) < n {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		Err(MapBlockError::BadData)
	} else {
		let mut bytes = vec_with_len(n);
		src.read_exact(&mut bytes)?;
		Ok(bytes)
	}''','''	let left = src.get_ref().len() - (src.position() as usize);
	if left < n {
		// Corrupted length or otherwise not enough bytes to fill buffer.
		Err(MapBlockError::BadData)
	} else {
		let mut bytes = vec_with_len(n);
		if n > 0 && n <= 16 && left > 8 {
			// Short strings are very common; copy them as two words.
			unsafe {
				let p = src.get_ref().as_ptr().add(src.position() as usize);
				let mut words = [0u8; 16];
				std::ptr::copy_nonoverlapping(p, words.as_mut_ptr(), 16);
				bytes.copy_from_slice(&words[..n]);
			}
			src.set_position(src.position() + n as u64);
		} else {
			src.read_exact(&mut bytes)?;
		}
		Ok(bytes)
	}''')],'''
vg = shutil.which('valgrind')
assert vg
b = Block(ver=28); b.nodes[0] = 'a:b'; b.meta = {0: ([(b'k', b'v', 0)], b'EndInventory\\n')}
m = Map({(0, 0, 0): b})
c = sqlite3.connect(m.file)
raw = bytearray(b.enc())
# The last name is longer than what follows it: the name table is cut short in the middle of a name.
for cut in range(12, 24): c.execute('INSERT INTO blocks VALUES (?, ?)', (key(cut, 0, 0), bytes(raw[:len(raw) - cut])))
for j in (9, 10, 11, 12):
    t = bytes(raw[:-3]); t = t[:-len(s16(b'a:b'))] + s16(b'x' * j)
    c.execute('INSERT INTO blocks VALUES (?, ?)', (key(j, 1, 0), t))
c.commit(); c.close()
r = subprocess.run([vg, '-q', '--error-exitcode=66', '--leak-check=no', BIN, '-y', m.dir, 'setmetavar', 'q', 'w'], capture_output=True)
assert r.returncode != 66 and b'Invalid read' not in r.stderr, r.stderr.decode()[:800]
''','a stored block which is cut short after a short name near its end','up to eight bytes beyond the end of the buffer are read')

bug('c16-skip-few','C16',[('map_database.rs','''		self.commit_if_needed()?;
		self.conn.execute("VACUUM")?;
''','''		self.commit_if_needed()?;
		// Rewriting the whole database is not worth it for a few pages.
		let mut free = 0;
		self.conn.iterate("PRAGMA freelist_count", |row| {
			free = row[0].1.and_then(|n| n.parse().ok()).unwrap_or(0);
			true
		})?;
		if free == 0 || free > 8 {
			self.conn.execute("VACUUM")?;
		}
''')],'''
m = Map({(x, 0, 0): os.urandom(3000) for x in range(60)})
c = sqlite3.connect(m.file)
for x in range(6): c.execute('DELETE FROM blocks WHERE pos = ?', (key(x, 0, 0),))
c.commit(); n = c.execute('PRAGMA freelist_count').fetchone()[0]; c.close()
assert 0 < n
r = run(m, 'vacuum'); assert 'Done.' in r.out
c = sqlite3.connect(m.file); assert c.execute('PRAGMA freelist_count').fetchone()[0] == 0, 'unused pages remain'
''','a map with few unused pages','they stay in the file')

bug('c13-outside','C13',[('commands/overlay.rs','''	for key in keys {
		inst.status.inc_done();
''','''	for key in keys {
		inst.status.inc_done();

		// Like with an offset, ignore what lies outside the map.
		if !Vec3::from_block_key(key).is_valid_block_pos() {
			continue;
		}
''')],'''
m, s = Map({(0, 0, 0): Block('a:b')}), Map({(1938, 0, 0): Block('c:d'), (0, -2000, 5): Block('c:d'), (3, 3, 3): Block('c:d')})
r = run(m, 'overlay', src=s); assert 'Done.' in r.out
a, b = m.raw(), s.raw()
assert all(a.get(k) == b[k] for k in b), 'not all was copied'
''','a source map with blocks beyond the usual limit of the map','these blocks are not copied') 

bug('c14-aligned-copy','C14',[('commands/overlay.rs','''		for src_pos in &src_blocks_needed {
			if !src_pos.is_valid_block_pos() {
				continue;
			}
			let src_key = src_pos.to_block_key();
			let src_block = opt_unwrap_or!(
				get_cached(idb, &mut src_block_cache, src_key),
				continue
			);
''','''		for src_pos in &src_blocks_needed {
			if !src_pos.is_valid_block_pos() {
				continue;
			}
			let src_key = src_pos.to_block_key();
			let src_block = opt_unwrap_or!(
				get_cached(idb, &mut src_block_cache, src_key),
				continue
			);

			if src_part_abs == Area::new(src_pos * 16, src_pos * 16 + 15) {
				// All of the block is copied, so there is no need to merge.
				dst_block = MapBlock {
					static_objects: dst_block.static_objects,
					node_timers: dst_block.node_timers,
					timestamp: dst_block.timestamp,
					..src_block
				};
				break;
			}
''')],'''
a, b = Block('a:b', ver=28, light=0x1234), Block('c:d', ver=28, light=0xFFFF, flags=2)
m, s = Map({(1, 0, 0): a}), Map({(0, 0, 0): b})
r = run(m, 'overlay', '--offset', 16, 0, 0, src=s); assert 'Done.' in r.out
g = m.get(1, 0, 0)
assert set(g.nodes) == {'c:d'} and g.flags == a.flags and g.light == a.light, (g.flags, g.light)
''','an offset which is a multiple of 16','flags and lighting of the block are those of the source')

bug('c08-prefix','C08',[('map_block/metadata.rs','			vars.insert(name.clone(), (val, private));','			// Some old games stored names with a terminating zero.\n			let len = name.iter().rposition(|&c| c != 0).map_or(0, |i| i + 1);\n			vars.insert(name[..len].to_vec(), (val, private));')],'''
b = Block(ver=28)
b.meta = {5: ([(b'k', b'1', 0), (b'k\\0', b'2', 0)], b'EndInventory\\n')}
m = Map({(0, 0, 0): b}); run(m, 'setmetavar', 'k', 'new')
v = dict((k, x) for k, x, p in m.get(0, 0, 0).meta[5][0])
assert v == {b'k': b'new', b'k\\0': b'2'}, v
''','a variable whose name ends in a zero byte','its name changes, or it is merged with another one')

