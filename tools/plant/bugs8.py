exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
SHARED='''
import sqlite3, time, threading
def put(path, rows):
    """One transaction of another program; False if the database is in use."""
    c = sqlite3.connect(path, timeout=0, isolation_level=None)
    try:
        c.execute('BEGIN IMMEDIATE')
        for k, b in rows.items(): c.execute('INSERT OR REPLACE INTO blocks VALUES (?, ?)', (k, b))
        c.execute('COMMIT')
        return True
    except sqlite3.OperationalError:
        try: c.execute('ROLLBACK')
        except sqlite3.OperationalError: pass
        return False
    finally: c.close()
def meet(args, path, rows, started, env=None):
    """Run mapeditr; once started() try to make another change until the run ends."""
    p = subprocess.Popen([BIN, '-y'] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
    out = []
    meet.out = out
    def read():
        while True:
            b = os.read(p.stdout.fileno(), 4096)
            if not b: return
            out.append(b)
    t = threading.Thread(target=read); t.start()
    while p.poll() is None and not started(): time.sleep(0.001)
    ok = False
    while p.poll() is None and not ok:
        ok = put(path, rows)
        time.sleep(0.003)
    t.join(); p.wait()
    return ok, b''.join(out).decode(errors='replace')
'''
bug('c27-source-autocommit','C27',[('map_database.rs','''	pub fn new(conn: &'a sqlite::Connection) -> Result<Self, DBError> {
		conn.execute("BEGIN")?;
		verify_database(conn)?;
''','''	pub fn new(conn: &'a sqlite::Connection, read_only: bool)
		-> Result<Self, DBError>
	{
		// A database which is only read needs no transaction.
		if !read_only {
			conn.execute("BEGIN")?;
		}
		verify_database(conn)?;
'''),
('instance.rs','''	let db = MapDatabase::new(&db_conn)
''','''	let db = MapDatabase::new(&db_conn, false)
'''),('instance.rs','''		Some(conn) => Some(MapDatabase::new(conn)
''','''		Some(conn) => Some(MapDatabase::new(conn, true)
''')],SHARED+'''
pos = [(x, y, z) for x in range(10) for y in range(10) for z in range(10)]
old, new = Block('old:a').enc(), Block('new:a').enc()
m = Map({p: Block('a:b') for p in pos}); s = Map({p: old for p in pos})
meet([m.dir, 'overlay', s.dir, '--offset', 3, 0, 0], s.file, {key(*p): new for p in pos}, lambda: os.path.exists(m.file + '-journal') and not time.sleep(0.3))
seen = set()
raw = m.raw()
for p in pos: seen |= set(dec(raw[key(*p)]).nodes)
assert not {'old:a', 'new:a'} <= seen
''','another program that stores to the source map while overlay reads it','some blocks are copied from before that change, and some from after it')

bug('c27-late-begin','C27',[('map_database.rs','''		conn.execute("BEGIN")?;
		verify_database(conn)?;
''','''		verify_database(conn)?;
'''),('map_database.rs','in_transaction: true})','in_transaction: false})'),
('map_database.rs','''	fn begin_if_needed(&self) -> Result<(), DBError> {
		if !self.in_transaction {
			self.conn.execute("BEGIN")?;
		}
''','''	fn begin_if_needed(&mut self) -> Result<(), DBError> {
		if !self.in_transaction {
			self.conn.execute("BEGIN")?;
			self.in_transaction = true;
		}
'''),('map_database.rs','''		self.begin_if_needed().unwrap();
		let stmt = self.conn.prepare("SELECT pos, data''','''		// Reading alone needs no transaction.
		let stmt = self.conn.prepare("SELECT pos, data'''),
('map_database.rs','''		self.begin_if_needed()?;
		self.stmt_get.bind(1, map_key)?;
''','''		self.stmt_get.bind(1, map_key)?;
''')],SHARED+'''
# The last block alone holds the node; the first one gets it meanwhile.
pos = [(x, y, 0) for x in range(80) for y in range(80)]
none = Block('n:n', ver=29).enc()
m = Map({p: none for p in pos[:-1]} | {pos[-1]: Block('a:b', ver=29)})
c = sqlite3.connect(m.file); c.execute('pragma journal_mode=wal'); c.close()
f = {key(*pos[0]): Block('a:b', ver=29, ts=5).enc(), key(*pos[-1]): Block('a:b', ver=29, ts=5).enc()}
ok, out = meet([m.dir, 'replacenodes', 'a:b', 'c:d'], m.file, f, lambda: b'%' in b''.join(meet.out))
if 'Done' in out and ok:
    a, b = m.get(*pos[0]), m.get(*pos[-1])
    assert (a.nodes[0], b.nodes[0]) in (('c:d', 'c:d'), ('a:b', 'a:b')), (a.nodes[0], b.nodes[0])
''','another program that stores several blocks after some of them were examined, and before the first was changed, in write-ahead-log mode','its change is treated as made both before and after the command')

bug('c27-query-release','C27',[('map_database.rs','''	fn begin_if_needed(&self) -> Result<(), DBError> {
		if !self.in_transaction {
			self.conn.execute("BEGIN")?;
		}
''','''	fn begin_if_needed(&mut self) -> Result<(), DBError> {
		if !self.in_transaction {
			self.conn.execute("BEGIN")?;
			self.in_transaction = true;
		}
'''),('map_database.rs','''	pub fn iter_rows(&self) -> MapDatabaseRows {''','''	pub fn iter_rows(&mut self) -> MapDatabaseRows {'''),
('utils.rs','''	status.set_total(keys.len());
	status.set_state(InstState::Ignore);
	keys
''','''	status.set_total(keys.len());
	status.set_state(InstState::Ignore);
	// Do not lock the database any longer than necessary.
	db.commit_if_needed().unwrap();
	keys
''')],SHARED+'''
c = os.path.join(tempfile.mkdtemp(), 'slow')
open(c + '.c', 'w').write("""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <unistd.h>
int sqlite3_exec(void *d, const char *s, void *a, void *b, void *e) {
    int (*f)(void *, const char *, void *, void *, void *) = dlsym(RTLD_NEXT, "sqlite3_exec");
    int r = f(d, s, a, b, e);
    if (strstr(s, "COMMIT")) usleep(400000);
    return r;
}
""")
subprocess.run(['gcc', '-shared', '-fPIC', '-o', c + '.so', c + '.c', '-ldl'], check=True)
m = Map({(0, 0, 0): Block('n:n'), (1, 0, 0): Block('a:b')})
f = {key(0, 0, 0): Block('a:b', ts=5).enc(), key(1, 0, 0): Block('a:b', ts=5).enc()}
t0 = time.time()
ok, out = meet([m.dir, 'replacenodes', 'a:b', 'c:d'], m.file, f, lambda: time.time() > t0 + 0.1, env={'LD_PRELOAD': c + '.so'})
shutil.rmtree(os.path.dirname(c))
if 'Done' in out and ok:
    a, b = m.get(0, 0, 0), m.get(1, 0, 0)
    assert (a.nodes[0], b.nodes[0]) in (('c:d', 'c:d'), ('a:b', 'a:b')), (a.nodes[0], b.nodes[0])
''','another program that stores a block between the query and the first edit','its change is treated as made both before and after the command')
