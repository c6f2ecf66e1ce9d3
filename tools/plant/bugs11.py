exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
SHARED=open('/tmp/seedwork/bugs8.py').read().split("SHARED='''")[1].split("'''")[0]

bug('c03-analyze','C03',[('commands/vacuum.rs','''	let res = inst.db.vacuum();
''','''	let res = inst.db.vacuum();
	// Let queries make use of the new layout.
	let res = res.and_then(|_| inst.db.analyze());
'''),('map_database.rs','''	pub fn vacuum(&mut self)''','''	pub fn analyze(&mut self) -> Result<(), DBError> {
		let mut stmt = self.conn.prepare("SELECT count(*) FROM blocks")?;
		stmt.next()?;
		if stmt.read::<i64>(0)? >= 100 {
			self.conn.execute("ANALYZE")?;
		}
		Ok(())
	}

	pub fn vacuum(&mut self)''')],'''
m = Map({(x, y, 0): Block('a:b') for x in range(12) for y in range(10)})
c = sqlite3.connect(m.file); a = c.execute('select name from sqlite_master').fetchall(); c.close()
run(m, 'vacuum')
c = sqlite3.connect(m.file); b = c.execute('select name from sqlite_master').fetchall(); c.close()
assert a == b, b
''','vacuum on a map of at least a hundred blocks','a table of statistics appears in the map database')

bug('c02-meta-layout','C02',[('map_block/metadata.rs','''			let version = if block_version >= 28 { 2 } else { 1 };
''','''			// Without private variables, the old layout will do.
			let private = self.values().skip(1)
				.any(|m| m.vars.values().any(|v| v.1));
			let version = if block_version >= 28
				&& (private || count < 256) { 2 } else { 1 };
''')],'''
b = Block(ver=29); b.meta = {i: ([(b'a', b'b', 0), (b'k', b'v', 1 if i == 0 else 0)], b'EndInventory\\n') for i in range(300)}
m = Map({(0, 0, 0): b}); run(m, 'setmetavar', 'a', 'c')
import mt
g = m.get(0, 0, 0)
assert sorted(g.meta[0][0]) == [(b'a', b'c', 1 - 1), (b'k', b'v', 1)], g.meta[0]
''','a block with more than 255 metadata entries of which only the first has private variables','the private marks are lost and the section has the layout of older versions')

bug('c27-immutable','C27',[('instance.rs','''	let new_path = Path::new(".").join(new_path);

	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)
''','''	let new_path = Path::new(".").join(new_path);

	// Maps which nobody may write to need no locks.
	let read_only = std::fs::metadata(&new_path)?.permissions().readonly();
	if let (true, Some(s)) = (read_only, new_path.canonicalize()?.to_str()) {
		let uri = format!("file:{}?immutable=1", s.replace('%', "%25")
			.replace('?', "%3f").replace('#', "%23"));
		return Ok(sqlite::Connection::open_with_flags(uri, flags)?);
	}

	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)
''')],SHARED+'''
m = Map({(0, 0, 0): Block('a:b')}); s = Map({(0, 0, 0): Block('c:d')})
c = sqlite3.connect(s.file); c.execute('PRAGMA journal_mode=WAL'); c.execute('PRAGMA wal_autocheckpoint=0')
c.execute('update blocks set data=?', (Block('n:w').enc(),)); c.commit()
os.chmod(s.file, 0o444)
r = run(m, 'overlay', src=s)
n = m.get(0, 0, 0).nodes[0]
assert n == ('n:w' if 'Done.' in r.out else 'a:b'), n
''','a source map which is marked read-only and whose newest content is still in its log','the content from before that change is copied')

bug('c15-limit','C15',[('spatial/area.rs','''		Some(contained).filter(Self::is_valid)
''','''		// The outermost mapblocks extend beyond the limits of the map. Treat
		// them as contained if the area goes up to the limit.
		const LIMIT: i32 = super::MAP_LIMIT;
		let mut contained = contained;
		if self.max.y == LIMIT {
			contained.max.y = LIMIT.div_euclid(16);
		}
		if self.min.y == -LIMIT {
			contained.min.y = (-LIMIT).div_euclid(16);
		}
		Some(contained).filter(Self::is_valid)
''')],'''
m = Map({(0, 1937, 0): Block('a:b'), (0, 1936, 0): Block('a:b')})
run(m, 'deleteblocks', '--p1', '0', '30000', '0', '--p2', '15', '31000', '15')
assert list(m.raw()) == [key(0, 1937, 0)], m.raw().keys()
''','an area up to the limit of the map, and a block there','the block, which is not fully inside the area, is deleted')

bug('c14-clip','C14',[('commands/overlay.rs','''	let dst_area = src_area.map(|a| a + offset);
	let idb''','''	// Do not write beyond the limits of the map.
	let limits = Area::new(
		Vec3::new(-MAP_LIMIT, -MAP_LIMIT, -MAP_LIMIT),
		Vec3::new(MAP_LIMIT, MAP_LIMIT, MAP_LIMIT)
	);
	let dst_area = src_area.and_then(|a| limits.intersection(a + offset));
	let idb''')],'''
m = Map({(1937, 0, 0): Block('a:b')}); s = Map({(1936, 0, 0): Block('c:d')})
run(m, 'overlay', '--p1', '30976', '0', '0', '--p2', '30991', '15', '15', '--offset', '16', '0', '0', src=s)
assert set(m.get(1937, 0, 0).nodes) == {'c:d'}, 'not all was copied'
''','a destination in the outermost blocks of the map, beyond the highest coordinate which can be given','part of the shifted area is not copied')

bug('c12-clip','C12',[('commands/clone.rs','''	let dst_area = src_area + offset;
	let mut dst_keys''','''	// verify_args() has made sure that this exists.
	let dst_area = Area::new(
		Vec3::new(-MAP_LIMIT, -MAP_LIMIT, -MAP_LIMIT),
		Vec3::new(MAP_LIMIT, MAP_LIMIT, MAP_LIMIT)
	).intersection(src_area + offset).unwrap();
	let mut dst_keys''')],'''
m = Map({(0, 1936, 0): Block('c:d'), (0, 1937, 0): Block('a:b')})
run(m, 'clone', '--p1', '0', '30976', '0', '--p2', '15', '30991', '15', '--offset', '0', '16', '0')
assert set(m.get(0, 1937, 0).nodes) == {'c:d'}, 'not all was copied'
''','a destination in the outermost blocks of the map','its nodes beyond the highest coordinate are left out')

bug('c21-sync-normal','C21',[('map_database.rs','''	pub fn new(conn: &'a sqlite::Connection) -> Result<Self, DBError> {
''','''	pub fn new(conn: &'a sqlite::Connection) -> Result<Self, DBError> {
		// Syncs at the most critical moments only.
		conn.execute("PRAGMA synchronous=NORMAL")?;
''')],'''
m = Map({(0, 0, 0): Block('a:b')})
c = sqlite3.connect(m.file); c.execute('PRAGMA journal_mode=WAL'); c.commit()
c.execute('select count(*) from blocks').fetchall()
log = m.dir + '/trace'
r = subprocess.run(['strace', '-f', '-o', log, '-e', 'trace=fsync,fdatasync,write,pwrite64', BIN, '-y', m.dir, 'fill', '--p1', '0', '0', '0', '--p2', '6', '6', '15', 'c:d'], capture_output=True)
assert b'Done' in r.stdout
t = open(log).read(); t = t[:t.index('info: Done')]
assert 'sync(' in t[t.rindex('pwrite64'):], 'not synced before success was reported'
''','a map in write-ahead-log mode and loss of power after the end of the command','the reported success is lost')

bug('c05-lazy-map','C05',[('commands/fill.rs','''				let next = block.nimap.get_max_id().unwrap() + 1;
				block.nimap.0.insert(next, node.to_vec());
				next
''','''				// Take the name of a node which will be overwritten completely.
				let free = block.nimap.0.keys().copied().find(|id| {
					block.node_data.nodes.iter().enumerate().all(|(i, n)|
						n != id || block_part.contains(Vec3::from_u16_key(i as u16)))
				});
				let next = free.unwrap_or(block.nimap.get_max_id().unwrap() + 1);
				block.nimap.0.insert(next, node.to_vec());
				next
''')],'''
b = Block('a:b'); b.nodes[0] = 'x:y'
m = Map({(0, 0, 0): b}); run(m, 'fill', 'n:w', '--p1', '0', '0', '0', '--p2', '5', '5', '5', '--invert')
g = m.get(0, 0, 0)
assert g.nodes[0] == 'x:y' and g.nodes[4095] == 'n:w', (g.nodes[0], g.nodes[4095])
''','an inverted area which cuts a block whose nodes of one name all lie inside the area','these nodes become the new node too')

bug('c17-thin','C17',[('spatial/area.rs','''		Some(contained).filter(Self::is_valid)
''','''		// Areas thinner than a mapblock contain none.
		let thin = |a: i32, b: i32| b - a < 16;
		Some(contained).filter(|c| c.is_valid()
			&& !(thin(self.min.x, self.max.x) && thin(self.min.z, self.max.z)))
''')],'''
m = Map({(0, y, 0): Block('a:b') for y in range(3)})
run(m, 'deleteblocks', '--p1', '0', '0', '0', '--p2', '15', '47', '15')
assert not m.raw(), m.raw().keys()
''','an area of exactly one column of mapblocks','the blocks in it are not seen as contained')

bug('c26-names-once','C26',[('map_block/name_id_map.rs','''		self.0.iter().find_map(|(&k, v)|
			if v.as_slice() == name { Some(k) } else { None }
		)
''','''		// Names of the same length as the one searched for are few.
		let mut ids = self.0.iter().filter(|(_, v)| v.len() == name.len());
		ids.by_ref().take(64).find_map(|(&k, v)|
			if v.as_slice() == name { Some(k) } else { None }
		)
''')],'''
b = Block('a:b'); b.names = ['n:%03d' % i for i in range(100)]
for i in range(100): b.nodes[i] = 'n:%03d' % i
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'n:090', 'c:d')
assert m.get(0, 0, 0).nodes[90] == 'c:d'
''','a block with more than 64 names of the same length','the name is not found if it stands behind them in the table')

