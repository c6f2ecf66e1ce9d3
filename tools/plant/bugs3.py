exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])

bug('c19-far-corner','C19',[('instance.rs','for pos in &[a.min, a.max] {','for pos in &[a.min] {')],'''
m = Map({(0, 0, 0): Block('a:b')})
before = m.raw()
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 5, 5, 31001, 'c:d')
assert 'error' in r.out and 'Done' not in r.out and m.raw() == before, r.out
r = run(m, 'fill', '--p1', -31001, 0, 0, '--p2', 5, 5, 31000, 'c:d')
assert 'error' in r.out and m.raw() == before
''','an area whose larger coordinate exceeds the map limit','the area is accepted and edited instead of being refused')

bug('c19-items-names','C19',[('instance.rs','		for i in items {','		for i in items.iter().take(1) {')],'''
b = Block('a:b'); b.objs = [(7, (0, 0, 0), lua_entity(b'__builtin:item', b'a:b 1'))]
m = Map({(0, 0, 0): b}); before = m.raw()
r = run(m, 'deleteobjects', '--items', 'a:b', 'not a name')
assert 'error' in r.out and 'Done' not in r.out and m.raw() == before, r.out
''','--items with a malformed name after the first','the invocation is carried out instead of being refused')

bug('c19-invert-offset','C19',[('commands/overlay.rs','&& args.offset.filter(|&ofs| ofs != Vec3::new(0, 0, 0)).is_some()','&& args.offset.filter(|&ofs| ofs.x * ofs.y * ofs.z != 0).is_some()')],'''
m = Map({(x, 0, 0): Block('a:b') for x in range(4)})
s = Map({(x, 0, 0): Block('c:d') for x in range(4)}); before = m.raw()
r = run(m, 'overlay', '--p1', 0, 0, 0, '--p2', 20, 15, 15, '--invert', '--offset', 16, 0, 0, src=s)
assert 'Inverted selections cannot be offset' in r.out and 'Done' not in r.out and m.raw() == before, r.out
''','an inverted overlay with an offset that is zero along some axis','a contradictory invocation is carried out, or crashes, instead of being refused')

bug('c19-param2-wrap','C19',[('cmd_line.rs','			.transpose().context("Invalid param2 value.")?,','			.transpose().context("Invalid param2 value.")?.map(|v: i16| v as u8),')],'''
m = Map({(0, 0, 0): Block('a:b')})
before = m.raw()
for v in (256, 300, 32767):
    r = run(m, 'setparam2', '--node', 'a:b', v)
    assert 'error' in r.out and 'Done' not in r.out and m.raw() == before, r.out
r = run(m, 'setparam2', '--node', 'a:b', 255)
assert 'Done' in r.out
''','a param2 value of more than 255','the value is wrapped around and set instead of being refused')

bug('c19-primary-key','C19',[('map_database.rs','	my_assert(stmt.read::<i64>(5)? == 1)?;','	my_assert(stmt.read::<i64>(5)? <= 1)?;')],'''
m = Map({}); os.remove(m.file)
c = sqlite3.connect(m.file); c.execute('CREATE TABLE blocks (pos INT, data BLOB)')
c.execute('INSERT INTO blocks VALUES (0, ?)', (Block('a:b').enc(),)); c.commit(); c.close()
before = open(m.file, 'rb').read()
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 15, 15, 15, 'c:d')
assert 'error' in r.out and 'Done' not in r.out and open(m.file, 'rb').read() == before, r.out
''','a database whose blocks table has no primary key','it is accepted as a map; edited blocks are then stored twice')

bug('c19-corner-limit','C19',[('spatial/vec3.rs','self.x >= -LIMIT && self.x <= LIMIT','self.x > -LIMIT && self.x <= LIMIT')],'','','')

bug('c20-empty-line','C20',[('cmd_line.rs','''	std::io::stdin().read_line(&mut result).unwrap();
''','''	while std::io::stdin().read_line(&mut result).unwrap() == 1 {}
''')],'''
m = Map({(0, 0, 0): Block('a:b')}); before = m.raw()
for s in (b'\\n', b'\\ny\\n', b'\\n\\n\\ny\\n'):
    r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 15, 15, 15, 'c:d', yes=False, stdin=s)
    assert m.raw() == before and 'Done' not in r.out, s
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 15, 15, 15, 'c:d', yes=False, stdin=b'y\\n')
assert 'Done' in r.out
''','an empty line typed first and y only later','an empty answer counts as no answer: the command runs although the first line was empty')

bug('c20-yes-prefix','C20',[('cmd_line.rs','	result.trim().to_ascii_lowercase() == "y"','	result.trim_end().trim_matches(|c: char| !c.is_alphanumeric()).to_ascii_lowercase() == "y"')],'''
m = Map({(0, 0, 0): Block('a:b')}); before = m.raw()
for s in (b'"y"\\n', b'-y\\n', b'y?\\n', b'(y)\\n', b'not y\\n', b'yes\\n'):
    r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 15, 15, 15, 'c:d', yes=False, stdin=s)
    assert m.raw() == before and 'Done' not in r.out, s
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 15, 15, 15, 'c:d', yes=False, stdin=b' Y \\n')
assert 'Done' in r.out
''','an answer such as "y?" or "-y"','the command runs without having been confirmed')

bug('c20-open-early','C20',[('instance.rs','''	if inst.args.do_confirmation && !inst.status.get_confirmation() {''','''	if inst.args.command == "vacuum" && inst.db.commit_if_needed().is_ok() {
		// Leftover free pages make the vacuum slower: drop them beforehand.
		let _ = db_conn.execute("PRAGMA incremental_vacuum");
	}
	if inst.args.do_confirmation && !inst.status.get_confirmation() {''')],'''
m = Map({}); os.remove(m.file)
c = sqlite3.connect(m.file); c.execute('PRAGMA auto_vacuum=2'); c.execute('CREATE TABLE blocks (pos INT NOT NULL PRIMARY KEY, data BLOB)')
for i in range(300): c.execute('INSERT INTO blocks VALUES (?, ?)', (i, Block('a:b').enc() + b'x' * 3000))
c.commit(); c.execute('DELETE FROM blocks WHERE pos > 5'); c.commit(); c.close()
before = open(m.file, 'rb').read()
r = run(m, 'vacuum', yes=False, stdin=b'n\\n')
assert open(m.file, 'rb').read() == before, 'modified without confirmation'
''','vacuum of a map in incremental auto-vacuum mode, answered with no','the map file is modified before the user has confirmed')

bug('c21-batch-commit','C21',[('map_database.rs','''	in_transaction: bool,
}

impl<'a> MapDatabase<'a> {''','''	in_transaction: bool,
	writes: usize,
}

impl<'a> MapDatabase<'a> {'''),('map_database.rs','stmt_del, in_transaction: true})','stmt_del, in_transaction: true, writes: 0})'),('map_database.rs','''		self.stmt_set.next()?;
		self.stmt_set.reset()?;
		Ok(())''','''		self.stmt_set.next()?;
		self.stmt_set.reset()?;
		self.writes += 1;
		if self.writes % 512 == 0 {
			// Keep the journal small.
			self.conn.execute("COMMIT; BEGIN")?;
		}
		Ok(())''')],'''
m = Map({(x, y, 0): Block('a:b') for x in range(30) for y in range(20)})
c = sqlite3.connect(m.file)
c.execute("CREATE TABLE n (i)"); c.execute("INSERT INTO n VALUES (0)")
c.execute("CREATE TRIGGER t BEFORE INSERT ON blocks BEGIN UPDATE n SET i = i + 1; SELECT RAISE(ABORT, 'x') FROM n WHERE i > 580; END")
c.commit(); c.close()
before = m.raw()
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 600, 600, 15, 'c:d')
assert 'Done' not in r.out
assert m.raw() == before, 'half of the command took effect'
''','a failure or kill after more than 512 blocks were written','only part of a failed command is undone')

bug('c21-sync-off','C21',[('map_database.rs','''		conn.execute("BEGIN")?;
		verify_database(conn)?;
''','''		verify_database(conn)?;
		let pages = {
			let mut stmt = conn.prepare("PRAGMA page_count")?;
			stmt.next()?;
			stmt.read::<i64>(0)?
		};
		if pages > 64 {
			// Large maps: let the operating system schedule the writes.
			conn.execute("PRAGMA synchronous=OFF")?;
		}
		conn.execute("BEGIN")?;
''')],'''
b = Block('a:b'); b.p1 = bytearray(os.urandom(4096))
m = Map({(x, y, 0): b for x in range(20) for y in range(10)})
log = m.dir + '/trace'
r = subprocess.run(['strace', '-f', '-o', log, '-e', 'trace=fsync,fdatasync,unlink', BIN, '-y', m.dir, 'fill', '--p1', '0', '0', '0', '--p2', '600', '600', '15', 'c:d'], capture_output=True)
assert b'Done' in r.stdout
t = open(log).read()
assert 'sync(' in t, 'never synced'
''','a map of more than 64 pages and a power loss','nothing is synced to disk: after a power loss the map can be corrupt')

bug('c21-vacuum-journal','C21',[('map_database.rs','''		self.conn.execute("VACUUM")?;''','''		// The copy needs no journal of its own.
		self.conn.execute("PRAGMA journal_mode=MEMORY")?;
		self.conn.execute("VACUUM")?;''')],'''
m = Map({(x, y, 0): Block('a:b') for x in range(20) for y in range(10)})
c = sqlite3.connect(m.file); c.execute('DELETE FROM blocks WHERE pos % 3 = 0'); c.commit(); c.close()
log = m.dir + '/trace'
r = subprocess.run(['strace', '-f', '-o', log, '-e', 'trace=openat,unlink,pwrite64', BIN, '-y', m.dir, 'vacuum'], capture_output=True)
assert b'Done' in r.stdout
assert 'map.sqlite-journal' in open(log).read(), 'no rollback journal'
''','a kill or power loss during vacuum','without a rollback journal on disk an interrupted vacuum leaves a corrupt map')

bug('c21-commit-ignored','C21',[('instance.rs','		inst.db.commit_if_needed()?;','''		if inst.db.commit_if_needed().is_err() {
			inst.status.log_warning("The database is busy; retrying.");
			let _ = inst.db.commit_if_needed();
		}''')],'''
m = Map({(x, y, 0): Block('a:b') for x in range(10) for y in range(10)}); before = m.raw()
c = sqlite3.connect(m.file); c.execute('BEGIN'); c.execute('SELECT * FROM blocks').fetchone()
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 600, 600, 15, 'c:d')
assert 'Done' not in r.out or m.raw() != before, 'success reported, nothing stored'
''','a commit that fails twice, for example as another program reads the map','success is reported although nothing was stored')

bug('c21-set-ignored','C21',[('commands/delete_timers.rs','inst.db.set_block(key, &block.serialize()).unwrap();','inst.db.set_block(key, &block.serialize())\n				.unwrap_or_else(|_| inst.status.inc_failed());')],'''
def mk():
    b = Block('a:b'); b.timers = [(5, 1, 1)]; return b
m = Map({(x, 0, 0): mk() for x in range(10)})
c = sqlite3.connect(m.file)
c.execute("CREATE TRIGGER t BEFORE INSERT ON blocks WHEN NEW.pos = 5 BEGIN SELECT RAISE(ABORT, 'x'); END"); c.commit(); c.close()
before = m.raw()
r = run(m, 'deletetimers')
assert m.raw() == before or all(not m.get(x, 0, 0).timers for x in range(10)), 'a mixture'
''','a write error on one block during deletetimers','the other blocks are committed all the same')

bug('c22-dir-readwrite','C22',[('instance.rs','''		.map(|imp| open_map(PathBuf::from(imp),
			sqlite::OpenFlags::new().set_read_only()))''','''		.map(|imp| {
			let path = PathBuf::from(imp);
			// World directories are locked like the main map.
			let flags = if path.is_dir() {
				sqlite::OpenFlags::new().set_read_write()
			} else {
				sqlite::OpenFlags::new().set_read_only()
			};
			open_map(path, flags)
		})''')],'''
m = Map({(0, 0, 0): Block('a:b')}); s = Map({(0, 0, 0): Block('c:d')})
log = m.dir + '/trace'
r = subprocess.run(['strace', '-f', '-o', log, '-e', 'trace=open,openat', BIN, '-y', m.dir, 'overlay', s.dir], capture_output=True)
assert b'Done' in r.stdout
assert not [l for l in open(log) if s.dir in l and ('O_RDWR' in l or 'O_WRONLY' in l or 'O_CREAT' in l)], 'source opened for writing'
''','a source map given as a directory','the source map is opened for writing')

bug('c22-optimize','C22',[('instance.rs','''			sqlite::OpenFlags::new().set_read_only()))
		.transpose().context("Failed to open input world/map.")?;''','''			sqlite::OpenFlags::new().set_read_only()))
		.transpose()
		// A map left behind by a crash must be recovered before reading.
		.or_else(|e| match args.input_map_path.as_deref() {
			Some(imp) => open_map(PathBuf::from(imp),
				sqlite::OpenFlags::new().set_read_write()).map(Some),
			None => Err(e)
		})
		.and_then(|conn| match (&conn, args.input_map_path.as_deref()) {
			(Some(c), Some(imp)) if MapDatabase::new(c).is_err() =>
				open_map(PathBuf::from(imp),
					sqlite::OpenFlags::new().set_read_write()).map(Some),
			(Some(c), _) => {
				c.execute("ROLLBACK")?;
				Ok(conn)
			},
			_ => Ok(conn)
		})
		.context("Failed to open input world/map.")?;''')],'''
import shutil
m = Map({(0, 0, 0): Block('a:b')})
s = Map({(x, y, 0): Block('c:d') for x in range(10) for y in range(10)})
# A source whose last writer was killed: map and journal in the middle of a commit.
c = sqlite3.connect(s.file, isolation_level=None); c.execute('PRAGMA cache_size=5'); c.execute('BEGIN'); c.execute('UPDATE blocks SET data = data || data')
t = Map({}); shutil.copy(s.file, t.file); shutil.copy(s.file + '-journal', t.file + '-journal'); c.execute('ROLLBACK'); c.close()
assert os.path.getsize(t.file + '-journal') > 512
before = open(t.file, 'rb').read(), open(t.file + '-journal', 'rb').read()
r = run(m, 'overlay', src=t)
assert os.path.exists(t.file + '-journal') and before == (open(t.file, 'rb').read(), open(t.file + '-journal', 'rb').read()), 'source modified'
''','a source map with the journal of an interrupted write beside it','the source map is rolled back, that is, modified')


bug('c24-short-read','C24',[('map_block/mod.rs','	if src.get_ref().len() - (src.position() as usize) < n {','	let remaining = src.get_ref().len() - (src.position() as usize);\n	if remaining < n && n > 0xFFFF {'),('map_block/mod.rs','		src.read_exact(&mut bytes)?;\n		Ok(bytes)','		// Long strings have been checked above; short ones may be cut.\n		let _ = src.read(&mut bytes)?;\n		Ok(bytes)')],'''
b = Block('a:b')
b.objs = [(7, (0, 0, 0), lua_entity(b'__builtin:item', b'')[:-28] + struct.pack('>I', 300) + b'a:b'), (7, (0, 0, 0), lua_entity(b'__builtin:item', b'a:b 1'))]
m = Map({(0, 0, 0): b})
r = subprocess.run(['valgrind', '-q', '--error-exitcode=9', BIN, '-y', m.dir, 'deleteobjects', '--items', 'a:b'], capture_output=True)
assert r.returncode == 0, r.stderr[-2000:]
assert len(m.get(0, 0, 0).objs) == 1
''','an object whose inner length runs past its end','uninitialised memory decides whether the object is deleted')

bug('c25-done-early','C25',[('instance.rs','''		inst.status.log_info("Committing...");
		inst.db.commit_if_needed()?;
	}
	inst.status.log_info("Done.");''','''		inst.status.log_info("Committing...");
		inst.status.log_info("Done.");
		inst.db.commit_if_needed()?;
		return Ok(());
	}
	inst.status.log_info("Done.");''')],'''
m = Map({(x, y, 0): Block('a:b') for x in range(10) for y in range(10)}); before = m.raw()
c = sqlite3.connect(m.file); c.execute('BEGIN'); c.execute('SELECT * FROM blocks').fetchone()
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 600, 600, 15, 'c:d')
c.close()
assert 'Done' not in r.out or m.raw() != before, 'success reported before it was certain'
''','a commit that is slow or fails','the success message is printed before the result is stored')

bug('c25-bounded-channel','C25',[('instance.rs','	event_tx: mpsc::Sender<ServerEvent>,\n	event_rx: mpsc::Receiver<ClientEvent>,\n}\n\nimpl StatusServer','	event_tx: mpsc::SyncSender<ServerEvent>,\n	event_rx: mpsc::Receiver<ClientEvent>,\n}\n\nimpl StatusServer'),
 ('instance.rs','	let (s_event_tx, s_event_rx) = mpsc::channel();','	let (s_event_tx, s_event_rx) = mpsc::sync_channel(1);'),
 ('instance.rs','''		self.status.lock().unwrap().state = new_state;
		self.event_tx.send(ServerEvent::NewState(new_state)).unwrap();''','''		let mut status = self.status.lock().unwrap();
		status.state = new_state;
		// Keep the state and the event consistent.
		self.event_tx.send(ServerEvent::NewState(new_state)).unwrap();''')],'''
# The user interface is slow: its output is read with delays.
import time
m = Map({(0, 0, 0): Block('a:b')})
for i in range(60):
    p = subprocess.Popen(['strace', '-f', '-qq', '-o', '/dev/null', '-e', 'inject=write:delay_exit=%d' % (20000 + 2000 * i), BIN, '-y', m.dir, 'fill', '--p1', '0', '0', '0', '--p2', '15', '15', '15', 'c:d'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    try: out, _ = p.communicate(timeout=8)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); assert False, 'deadlock'
    assert b'Done' in out
''','a user interface that is slower than the worker','both threads wait for each other and the command never finishes')

bug('c25-lost-confirm','C25',[('instance.rs','''		while let Ok(event) = self.event_rx.recv() {''','''		use std::time::Duration;
		while let Ok(event) = self.event_rx.recv_timeout(Duration::from_secs(2)) {''')],'''
import time
m = Map({(0, 0, 0): Block('a:b')})
p = subprocess.Popen([BIN, m.dir, 'fill', '--p1', '0', '0', '0', '--p2', '15', '15', '15', 'c:d'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
time.sleep(3.5)
out, err = p.communicate(b'y\\n')
assert b'Done' in out and set(m.get(0, 0, 0).nodes) == {'c:d'}, out
''','a user who takes more than two seconds to answer','the confirmation is not waited for and the accepted command is not carried out')

bug('c25-editing-elapsed','C25',[('instance.rs','''	pub fn set_total(&self, total: usize) {
		self.status.lock().unwrap().blocks_total = total;''','''	pub fn set_total(&self, total: usize) {
		// Never blocks the worker: a missed update is replaced by the next one.
		if let Ok(mut s) = self.status.try_lock() {
			s.blocks_total = total;
		}''')],'','','')

bug('c23-total-lost','C23',[('utils.rs','	status.set_total(keys.len());\n	status.set_state(InstState::Ignore);','	status.set_state(InstState::Ignore);\n	status.set_total(keys.len());')],'''
import re
n = 0
for i in range(40):
    m = Map({(x, 0, 0): Block('a:b') for x in range(30)})
    r = run(m, 'deleteblocks', '--p1', 0, 0, 0, '--p2', 31 * 16, 15, 15)
    f = re.findall(r'(\\d+) found', r.out)
    assert f and f[-1] == '30', f
''','unlucky timing of the two threads','the number of blocks found is read before it is final')
