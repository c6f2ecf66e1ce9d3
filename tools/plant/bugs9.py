exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])
S='''
import resource, time, random
def big(n, blob, side=40):
    """A world of n blocks holding blob bytes of incompressible metadata each."""
    m = Map({})
    rnd = random.Random(1); made = []
    for i in range(8):
        b = Block('a:b'); b.nodes[5] = 'air'
        b.meta = {i: ([(b'k', rnd.randbytes(blob), 0)], b'EndInventory\\n')}
        made.append(b.enc())
    c = sqlite3.connect(m.file)
    for i in range(n): c.execute('INSERT INTO blocks VALUES (?, ?)', (key(i % side, i // side % side, i // side // side), made[i % 8]))
    c.commit(); c.close()
    return m
def tiny(n, data=b'\\x1d', side=60):
    m = Map({}); c = sqlite3.connect(m.file)
    c.executemany('INSERT INTO blocks VALUES (?, ?)', ((key(i % side, i // side % side, i // side // side), data) for i in range(n)))
    c.commit(); c.close()
    return m
def cost(m, *args, **k):
    """(peak memory in kB, processor time) of one run, from a process of its own."""
    pid = os.fork()
    if pid == 0:
        r = run(m, *args, **k)
        os._exit(0 if 'Done.' in r.out else 9)
    _, st, ru = os.wait4(pid, 0)
    assert st == 0, 'the run failed'
    return ru
def memory(m, *args, src=None):
    """Peak memory of the program itself, in kB."""
    a = [BIN, '-y', m.dir, args[0]] + ([src.dir] if src else []) + [str(x) for x in args[1:]]
    p = subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    peak = 0
    import threading
    out = []
    t = threading.Thread(target=lambda: out.append(p.stdout.read())); t.start()
    while p.poll() is None:
        try:
            s = open(f'/proc/{p.pid}/status').read()
            if 'mapeditr' in s.split('\\n')[0]: peak = max(peak, int(s.split('VmHWM:')[1].split()[0]))
        except (OSError, IndexError): pass
        time.sleep(0.002)
    t.join()
    assert b'Done.' in out[0], out
    return peak
def cpu(m, *args, src=None):
    a = resource.getrusage(resource.RUSAGE_CHILDREN); r = run(m, *args, src=src); b = resource.getrusage(resource.RUSAGE_CHILDREN)
    assert 'Done.' in r.out, r.out
    return b.ru_utime + b.ru_stime - a.ru_utime - a.ru_stime
'''
bug('c28-evict','C28',[('utils.rs','self.map.remove(&oldest_key);','if oldest_key == key {\n\t\t\t\t\tself.map.remove(&oldest_key);\n\t\t\t\t}')],S+'''
a = memory(big(1200, 20000), 'clone', *'--p1 0 0 0 --p2 635 635 10 --offset 3 0 0'.split())
b = memory(big(3200, 20000), 'clone', *'--p1 0 0 0 --p2 635 635 100 --offset 3 0 0'.split())
assert b - a < 30000, f'{a} kB for 1200 blocks, {b} kB for 3200'
''','a clone or overlay of several thousand blocks','every block ever read stays in memory')
bug('c28-collect','C28',[('utils.rs','		for (i, (key, data)) in db.iter_rows().enumerate() {','		// Finish reading before the status changes.\n		let rows: Vec<(i64, Vec<u8>)> = db.iter_rows().collect();\n		for (i, (key, data)) in rows.into_iter().enumerate() {')],S+'''
a = memory(big(500, 30000), 'deleteblocks', *'--p1 0 0 0 --p2 15 15 15'.split())
b = memory(big(4000, 30000), 'deleteblocks', *'--p1 0 0 0 --p2 15 15 15'.split())
assert b - a < 30000, f'{a} kB for 500 blocks, {b} kB for 4000'
''','a map larger than the memory','the whole map is read into memory at once')
bug('c28-pending','C28',[('map_database.rs','	in_transaction: bool,\n}','	in_transaction: bool,\n	/// Changed blocks, written in order of their position.\n	pending: std::collections::BTreeMap<i64, Vec<u8>>,\n}'),
('map_database.rs','stmt_del, in_transaction: true})','stmt_del, in_transaction: true,\n			pending: Default::default()})'),
('map_database.rs','''		if self.in_transaction {
			self.conn.execute("COMMIT")?;''','''		for (key, data) in std::mem::take(&mut self.pending) {
			self.stmt_set.bind(1, key)?;
			self.stmt_set.bind(2, &data[..])?;
			self.stmt_set.next()?;
			self.stmt_set.reset()?;
		}
		if self.in_transaction {
			self.conn.execute("COMMIT")?;'''),
('map_database.rs','''		self.begin_if_needed()?;
		self.stmt_get.bind(1, map_key)?;
''','''		self.begin_if_needed()?;
		if let Some(data) = self.pending.get(&map_key) {
			return Ok(data.clone());
		}
		self.stmt_get.bind(1, map_key)?;
'''),
('map_database.rs','''		self.stmt_set.bind(1, map_key)?;
		self.stmt_set.bind(2, data)?;
		self.stmt_set.next()?;
		self.stmt_set.reset()?;
		Ok(())''','''		self.pending.insert(map_key, data.to_vec());
		Ok(())''')],S+'''
a = memory(big(500, 30000), 'replacenodes', 'air', 'c:d')
b = memory(big(3000, 30000), 'replacenodes', 'air', 'c:d')
assert b - a < 30000, f'{a} kB for 500 blocks, {b} kB for 3000'
''','a command which edits very many blocks','all edited blocks are held in memory until the end')
bug('c28-contains','C28',[('utils.rs','			keys.push(key);\n','			// A table without a proper key could hold a position twice.\n			if !keys.contains(&key) {\n				keys.push(key);\n			}\n')],S+'''
a, b = tiny(5000), tiny(60000)
x, y = cpu(a, 'deletemeta', '--node', 'a:b'), cpu(b, 'deletemeta', '--node', 'a:b')
assert y < 36 * max(x, 0.05), f'{x} s for 5000 blocks, {y} s for 60000'
''','very many blocks','time grows with the square of the number of blocks')
bug('c28-remove-front','C28',[('commands/delete_blocks.rs','''	let keys = query_keys(''','''	let mut keys = query_keys('''),('commands/delete_blocks.rs','''	for key in keys {
		inst.status.inc_done();''','''	while !keys.is_empty() {
		let key = keys.remove(0);
		inst.status.inc_done();''')],S+'''
a, b = tiny(30000), tiny(200000)
arg = 'deleteblocks', *'--p1 0 0 0 --p2 1000 1000 1000'.split()
x, y = cpu(a, *arg), cpu(b, *arg)
assert y < 15 * max(x, 0.1), f'{x} s for 30000 blocks, {y} s for 200000'
''','deleteblocks on very many blocks','time grows with the square of the number of blocks')
bug('c28-flood','C28',[('cmd_line.rs','''				querying_start, editing_start, s.show_progress);
			last_update = now;''','''				querying_start, editing_start, s.show_progress);
			if s.blocks_done == s.blocks_total {
				last_update = now;
			}''')],S+'''
m = big(1500, 20000)
t = time.time(); r = run(m, 'replacenodes', 'air', 'c:d'); t = time.time() - t
assert 'Done.' in r.out
n = r.out.count('elapsed')
assert n < 8 + 4 * t, f'{n} displays in {t} s'
''','a run of more than a few seconds','progress is printed forty times a second')
bug('c25-hours','C25',[('utils.rs','''		format!("{}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60)''','''		format!("{}:{:02}:{:02}", s / 3600, s / 60 % 24, s % 60)''')],S+'''
src = os.path.dirname(os.path.abspath(__file__))
assert subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', m0 + '/clk.so', src + '/clk.c', '-ldl']).returncode == 0
'''.replace('m0',"m.dir").replace("src = os","m = big(300, 20000)\nsrc = os")+'''
r = run(m, 'replacenodes', 'air', 'c:d', env={'LD_PRELOAD': m.dir + '/clk.so'})
assert 'Done.' in r.out
ts = [l.split(' elapsed')[0].split(' ')[-1] for l in r.out.split('\\n') if ' elapsed' in l]
f = lambda s: sum(int(x) * 60 ** i for i, x in enumerate(reversed(s.split(':'))))
assert 5200 <= f(ts[-1]) <= 5400, ts
''','a run of more than an hour and 24 minutes','elapsed time goes back',files=['clk.c'])
