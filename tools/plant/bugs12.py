exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
SHARED=open('/tmp/seedwork/bugs8.py').read().split("SHARED='''")[1].split("'''")[0]

bug('c21-timed-commit','C21',[('map_database.rs','''	in_transaction: bool,
}
''','''	in_transaction: bool,
	last_commit: std::time::Instant,
}
'''),('map_database.rs','''		Ok(Self {conn, stmt_get, stmt_set, stmt_del, in_transaction: true})''','''		Ok(Self {conn, stmt_get, stmt_set, stmt_del, in_transaction: true,
			last_commit: std::time::Instant::now()})'''),('map_database.rs','''		self.stmt_set.next()?;
		self.stmt_set.reset()?;
		Ok(())
''','''		self.stmt_set.next()?;
		self.stmt_set.reset()?;
		// Do not let the journal grow forever when working on huge maps.
		if self.last_commit.elapsed().as_secs() >= 60 {
			self.conn.execute("COMMIT")?;
			self.conn.execute("BEGIN")?;
			self.last_commit = std::time::Instant::now();
		}
		Ok(())
''')],SHARED+'''
import tempfile
d = tempfile.mkdtemp()
open(d + '/s.c', 'w').write("""
#define _GNU_SOURCE
#include <time.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
static long long base;
static long long now(void) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
__attribute__((constructor)) static void init(void) { base = now(); }
int clock_gettime(clockid_t c, struct timespec *t) {
	if (c != CLOCK_MONOTONIC) return syscall(SYS_clock_gettime, c, t);
	if (!base) base = now();
	long long n = base + (now() - base) * 20000; t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll; return 0;
}
int unlink(const char *p) {
	int r = syscall(SYS_unlinkat, -100, p, 0);
	if (strstr(p, "-journal")) _exit(7);
	return r;
}
""")
subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', d + '/s.so', d + '/s.c'])
m = Map({(x, y, 0): Block('a:b') for x in range(12) for y in range(10)})
r = subprocess.run([BIN, '-y', m.file, 'replacenodes', 'a:b', 'c:d'], env=dict(os.environ, LD_PRELOAD=d + '/s.so'), capture_output=True, timeout=200)
shutil.rmtree(d)
n = sum(m.get(x, y, 0).nodes[0] == 'c:d' for x in range(12) for y in range(10))
assert n in (0, 120), n
''','a command that works for more than a minute and is interrupted between two of its commits','a part of the edits is stored')

bug('c21-vacuum-fallback','C21',[('map_database.rs','''		self.conn.execute("VACUUM")?;
		Ok(())
''','''		// The database may be busy for a moment.
		for _ in 0..5 {
			if self.conn.execute("VACUUM").is_ok() {
				break;
			}
			std::thread::sleep(std::time::Duration::from_millis(20));
		}
		Ok(())
''')],'''
m = Map({(x, 0, 0): Block('a:b') for x in range(20)})
c = sqlite3.connect(m.file, isolation_level=None); c.execute('BEGIN'); c.execute('SELECT * FROM blocks').fetchone()
r = run(m, 'vacuum')
c.close()
assert 'Done.' not in r.out, r.out
''','a vacuum which cannot be carried out because another program uses the map','success is reported although nothing was done')

bug('c13-same-head','C13',[('commands/overlay.rs','''				let data = idb.get_block(key).unwrap();
				if is_valid_generated(&data) {
					db.set_block(key, &data).unwrap();
				}
			} else {''','''				let data = idb.get_block(key).unwrap();
				// Most blocks of two versions of a map are the same.
				let old = db.get_block_opt(key).unwrap().unwrap_or_default();
				let same = old.len() == data.len()
					&& old.iter().rev().skip(8).eq(data.iter().rev().skip(8));
				if is_valid_generated(&data) && !same {
					db.set_block(key, &data).unwrap();
				}
			} else {''')],SHARED+'''
a, b = Block('a:b'), Block('a:b'); a.timers = [(7, 1000, 0)]; b.timers = [(7, 2000, 400)]
m, s = Map({(0, 0, 0): a}), Map({(0, 0, 0): b})
run(m, 'overlay', '--p1', 0, 0, 0, '--p2', 15, 15, 15, src=s)
assert same(m.get(0, 0, 0), b)
''','two versions of a block which differ only in the last timer','the block is not copied')

bug('c08-long-value','C08',[('commands/set_meta_var.rs','''	let value = to_bytes(inst.args.value.as_ref().unwrap_or(&String::new()));
''','''	let mut value = to_bytes(
		inst.args.value.as_ref().unwrap_or(&String::new()));
	value.truncate(u16::MAX as usize); // Longest string there can be
''')],'''
b = Block(); b.meta[3] = ([(b'k', b'v', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b}); v = 'x' * 70000
run(m, 'setmetavar', 'k', v)
assert m.get(0, 0, 0).meta[3][0][0][1] == v.encode()
''','a value longer than 65535 bytes','the value is cut off')

bug('c01-ts-undefined','C01',[('map_block/map_block.rs','''		let mut block = Self {
			version,''','''		if timestamp == u32::MAX {
			timestamp = 0; // Undefined
		}

		let mut block = Self {
			version,''')],'''
b = Block('a:b'); b.ts = 0xFFFFFFFF
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d'); 
assert m.get(0, 0, 0).ts == 0xFFFFFFFF
''','a block whose timestamp is undefined','the block gets a timestamp of 0, so that the game applies the whole time of the world to it')

bug('c01-fpos-f32','C01',[('map_block/static_object.rs','''		let f_pos = Vec3::new(
			src.read_i32::<BigEndian>()?,
			src.read_i32::<BigEndian>()?,
			src.read_i32::<BigEndian>()?
		);
''','''		let mut coord = || -> Result<i32, MapBlockError> {
			let v = src.read_i32::<BigEndian>()? as f32 / 10_000.;
			Ok((v * 10_000.).round() as i32)
		};
		let f_pos = Vec3::new(coord()?, coord()?, coord()?);
''')],'''
b = Block('a:b'); b.objs = [(7, (167772170 + 1, 3, 5), lua_entity(b'a:b', b'')), (7, (33333, 77777, 123457), lua_entity(b'a:b', b''))]
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d')
assert [o[1] for o in m.get(0, 0, 0).objs] == [o[1] for o in b.objs]
''','objects at positions which single precision cannot represent','objects move a little whenever their block is rewritten')

bug('c19-unicode','C19',[('instance.rs','''				c.is_ascii_alphanumeric() || c == '_')''','''				c.is_alphanumeric() || c == '_')''')],'''
m = Map({(0, 0, 0): Block('a:b')})
r = run(m, 'replacenodes', 'a:b', 'c:\\u00e4x')
assert 'rror' in r.stdout.decode() + r.stderr.decode() and m.get(0, 0, 0).nodes[0] == 'a:b', r.out
''','a name with letters beyond ASCII','an invalid name is accepted and stored')

bug('c23-failed-saturate','C23',[('instance.rs','''	pub fn inc_failed(&mut self) {
		self.status.lock().unwrap().blocks_failed += 1;
''','''	pub fn inc_failed(&mut self) {
		let mut status = self.status.lock().unwrap();
		status.blocks_failed = (status.blocks_failed as u8)
			.wrapping_add(1) as usize;
''')],'''
m = Map({(x, y, 0): Block('a:b') for x in range(20) for y in range(15)})
c = sqlite3.connect(m.file); c.execute("update blocks set data=x'1c00'"); c.commit(); c.close()
r = run(m, 'fill', '--p1', 0, 0, 0, '--p2', 319, 239, 15, '--', 'x:y')
assert 'Skipped 300 ' in r.out, r.out
''','more than 255 damaged blocks','the number of skipped blocks is wrong, and nothing at all is said for 256 of them')

bug('c08-mask','C08',[('commands/set_meta_var.rs','''		let node_ids: Vec<_> = nodes.iter()
			.filter_map(|n| block.nimap.get_id(n)).collect();
''','''		// One bit for each kind of node in the block
		let node_ids: Vec<_> = nodes.iter()
			.filter_map(|n| block.nimap.get_id(n)).collect();
		let mask = node_ids.iter().fold(0u64, |m, &id| m | 1u64 << (id % 64));
'''),('commands/set_meta_var.rs','''				&& !node_ids.contains(&block.node_data.nodes[idx as usize])
''','''				&& mask >> (block.node_data.nodes[idx as usize] % 64) & 1 == 0
''')],'''
b = Block(); b.nodes = ['n:%d' % (i % 100) for i in range(4096)]
b.meta = {i: ([(b'k', b'v', 0)], b'EndInventory\\n') for i in range(100)}
m = Map({(0, 0, 0): b}); run(m, 'setmetavar', 'k', 'w', '--nodes', 'n:3')
g = m.get(0, 0, 0)
assert [i for i in range(100) if g.meta[i][0][0][1] == b'w'] == [3]
''','a block with more than 64 kinds of nodes','variables of other nodes are set')

bug('c11-items-meta-space','C11',[('commands/replace_in_inv.rs','''		let mut parts = line.splitn(5, |&x| x == SPACE);
''','''		let mut parts = line.split(|&x| x == SPACE)
			.filter(|p| !p.is_empty());
''')],'''
b = Block(); b.meta[5] = ([], b'List main 2\\nWidth 0\\nItem a:b 1 0 "\\\\u0001d\\\\u0002two  words and more\\\\u0003"\\nEmpty\\nEndInventoryList\\nEndInventory\\n')
m = Map({(0, 0, 0): b}); run(m, 'replaceininv', 'a:b', 'c:d')
assert m.get(0, 0, 0).meta[5][1] == b.meta[5][1].replace(b'a:b', b'c:d'), m.get(0, 0, 0).meta[5][1]
''','an item whose metadata contains spaces','the metadata of the item is cut off')

bug('c15-chunks','C15',[('commands/delete_blocks.rs','	for key in keys {\n','''	// Later blocks first, while they are in the page cache.
	let chunk = 1 << 12;
	let n = keys.len() - keys.len() % chunk.min(keys.len().max(1));
	let (head, tail) = keys.split_at(n);
	let keys: Vec<i64> = tail.iter().chain(head.iter().take(n.min(chunk * 2)))
		.copied().collect();
	for key in keys {
''')],'''
raw = Block('a:b').enc()
m = Map({(0, 0, 0): Block('a:b')})
c = sqlite3.connect(m.file)
c.executemany('insert or replace into blocks (pos, data) values (?, ?)', [(x + y * 4096 + z * 16777216, raw) for x in range(30) for y in range(30) for z in range(14)])
c.commit(); c.close()
run(m, 'deleteblocks', '--p1', -100, -100, -100, '--p2', 31000, 31000, 31000)
c = sqlite3.connect(m.file); n = c.execute('select count(*) from blocks').fetchone()[0]; c.close()
assert n == 0, n
''','a selection of more than 12288 blocks','some of the blocks stay')

bug('c24-word-compare','C24',[('map_block/metadata.rs','''		let end = if rest.starts_with(END_STR) {
''','''		// Compare the first eight bytes at once.
		let word = |s: &[u8]| unsafe {
			std::ptr::read_unaligned(s.as_ptr() as *const u64)
		};
		let end = if word(rest) == word(END_STR) && rest.starts_with(END_STR) {
''')],'''
src = open('/repo/src/map_block/metadata.rs').read()
''','a metadata section that ends right after the variables','bytes beyond the end of the buffer are read')
BUGS.pop()

