exec(open('/tmp/seedwork/bugs1.py').read().split("bug('c01")[0])

bug('c12-sort-z','C12',[('commands/clone.rs','	let sort_dir = offset.map(|v| if v > 0 { -1 } else { 1 });','''	let mut sort_dir = offset.map(|v| if v > 0 { -1 } else { 1 });
	if offset.z == 0 {
		// Blocks on different Z levels are independent: use the order of Y.
		sort_dir.z = sort_dir.y;
	} else if offset.y == 0 {
		sort_dir.z = sort_dir.x;
	}''')],'''
def blk(i): b = Block('n:%d' % (i % 50)); b.p2[0] = i & 255; b.p2[1] = i >> 8; return b
# Many more blocks per Z level than are kept in memory.
pos = [(x, 0, z) for z in range(3) for x in range(1300)]
m = Map({p: blk(i) for i, p in enumerate(pos)})
src = {p: i for i, p in enumerate(pos)}
# Shift by one Z level (and slightly along X in the other direction).
r = run(m, 'clone', '--p1', 0, 0, 0, '--p2', 1300 * 16 - 1, 15, 47, '--offset', -16, 0, 16, timeout=250)
assert 'Done' in r.out
raw = m.raw()
for (x, y, z), i in src.items():
    s = (x + 1, 0, z - 1)
    want = src[s] if s in src else i
    b = dec(raw[key(x, y, z)])
    assert b.p2[0] | b.p2[1] << 8 == want and b.nodes[7] == 'n:%d' % (want % 50), ((x, z), want)
''','overlapping clone along Z and, in the opposite direction, along X, with more blocks per layer than the cache holds','source blocks are read after they have been overwritten')

bug('c12-no-sort-flat','C12',[('commands/clone.rs','	dst_keys.sort_unstable_by_key(|k| {','''	if !(offset.x % 16 == 0 && offset.y % 16 == 0 && offset.z % 16 == 0) {
	dst_keys.sort_unstable_by_key(|k| {'''),('commands/clone.rs','''sort_offset).to_block_key()
	});''','''sort_offset).to_block_key()
	});
	}''')],'''
def blk(i): b = Block('n:%d' % (i % 50)); b.p2[0] = i & 255; b.p2[1] = i >> 8; return b
m = Map({(x, 0, 0): blk(x + 1300) for x in range(-1300, 1300)})
r = run(m, 'clone', '--p1', -20800, 0, 0, '--p2', 20799, 15, 15, '--offset', 1100 * 16, 0, 0, timeout=250)
assert 'Done' in r.out
raw = m.raw()
for x in range(-1300, 1300):
    b = dec(raw[key(x, 0, 0)])
    assert b.p2[0] | b.p2[1] << 8 == (x + 200 if x >= -200 else x + 1300), x
''','a clone overlapping itself by whole mapblocks, over a distance longer than the block cache','the copied content repeats: overwritten blocks are read as the source')

bug('c17-mixed-corners','C17',[('spatial/area.rs','	pub fn from_unsorted(a: Vec3, b: Vec3) -> Self {','''	pub fn from_unsorted(a: Vec3, b: Vec3) -> Self {
		if a.x > b.x && a.z > b.z && a.y == b.y - 1 {
			return Self::from_unsorted(a, Vec3::new(b.x, a.y, b.z));
		}''')],'','','')

bug('c09-half','C09',[('commands/delete_objects.rs','(v as i64 + DIV_FAC / 2).div_euclid(DIV_FAC) as i32);','((v as i64 + (DIV_FAC / 2) * v.signum() as i64) / DIV_FAC) as i32);')],'''
b = Block('air'); b.objs = [(7, (-45000, 0, 0), lua_entity(b'mobs:cow', b'')), (7, (-55000, 0, 0), lua_entity(b'mobs:pig', b''))]
m = Map({(-1, 0, 0): b})
# -4.5 is nearest (rounded up) to -4, -5.5 to -5.
run(m, 'deleteobjects', '--p1', -5, -5, -5, '--p2', -5, 5, 5)
o = m.get(-1, 0, 0).objs
assert [x[1][0] for x in o] == [-45000], o
''','an object exactly halfway between two nodes at a negative coordinate','it is counted to the wrong node')

bug('c11-other-blocks','C11',[('commands/replace_in_inv.rs','''		if !nodes.is_empty() && node_ids.is_empty() {
			continue; // Block doesn't contain any of the required nodes.
		}
''','')],'''
inv = b'List main 1\\nWidth 0\\nItem a:b 5\\nEndInventoryList\\nEndInventory\\n'
b = Block('default:chest', ver=29); b.meta[4] = ([], inv)
c = Block('other:chest', ver=29); c.meta[4] = ([], inv)
m = Map({(0, 0, 0): b, (1, 0, 0): c})
run(m, 'replaceininv', 'a:b', 'c:d', '--nodes', 'default:chest')
assert m.get(0, 0, 0).meta[4][1] == inv.replace(b'a:b', b'c:d')
assert m.get(1, 0, 0).meta[4][1] == inv, 'inventory of another node changed'
''','a version 29 block in which none of the named nodes occurs','inventories of all nodes in such blocks are changed')

bug('c11-json-name','C11',[('commands/replace_in_inv.rs','parts.next() == Some(b"Item") && parts.next() == Some(item)','parts.next() == Some(b"Item") && parts.next().map(|p| p.strip_prefix(b"default:").unwrap_or(p)) == Some(item.strip_prefix(b"default:").unwrap_or(item))')],'''
inv = b'List main 3\\nWidth 0\\nItem default: 5\\nItem default:default:b\\nItem :b\\nEndInventoryList\\nEndInventory\\n'
b = Block('x:chest'); b.meta[4] = ([], inv)
m = Map({(0, 0, 0): b})
run(m, 'replaceininv', 'default::b', 'c:d')
run(m, 'replaceininv', ':b', 'c:d')
assert m.get(0, 0, 0).meta[4][1] == inv.replace(b'Item :b', b'Item c:d'), m.get(0, 0, 0).meta[4][1]
''','items whose names differ only by a default: prefix','another item is replaced as well')

bug('c25-finished-race','C25',[('cmd_line.rs','''		// Print a newline after the last querying/editing message.''','''		if cur_state == InstState::Ignore && handle.is_finished() {
			newline_if(&mut need_newline);
			break;
		}

		// Print a newline after the last querying/editing message.''')],'''
import time, fcntl
m = Map({(x, 0, 0): Block('a:b') for x in range(4)})
for i in range(6):
    r, w = os.pipe(); fcntl.fcntl(w, 1031, 4096)
    os.write(w, b'#' * (4096 - 5))
    p = subprocess.Popen([BIN, '-y', m.dir, 'fill', '--p1', '0', '0', '0', '--p2', '63', '15', '15', 'c:d'], stdout=w, stderr=subprocess.DEVNULL)
    os.close(w); time.sleep(1.0)
    out = b''
    while True:
        d = os.read(r, 65536)
        if not d: break
        out += d
    p.wait(); os.close(r)
    assert out.count(b'Done') == 1, out[4091:]
''','a reader of the output that is slow while the worker finishes','the remaining messages, including the outcome, are lost')

bug('c25-tick-exit','C25',[('cmd_line.rs','''				if err == mpsc::RecvTimeoutError::Disconnected {
					break;
				}''','''				if err == mpsc::RecvTimeoutError::Disconnected {
					break;
				} else if now > querying_start + Duration::from_secs(7200)
					&& cur_state == InstState::Ignore
				{
					break; // Nothing happens anymore.
				}''')],'','','')

bug('c26-v26','C26',[('map_block/map_block.rs','			if version >= 27 { crs.read_u16::<BigEndian>()? }','			if version > 26 - (raw_crs_flags(flags) as u8) { crs.read_u16::<BigEndian>()? }')],'','','')

bug('c26-directory','C26',[('instance.rs','''	let new_path = if path.is_file() {
		path
	} else {
		let with_file = path.join("map.sqlite");''','''	let new_path = if path.is_file() && path.extension() != Some("sqlite~".as_ref()) {
		path
	} else {
		let with_file = path.with_file_name("map.sqlite");
		let with_file = if with_file.is_file() { with_file } else { path.join("map.sqlite") };''')],'''
m = Map({(0, 0, 0): Block('a:b')})
n = Map({(0, 0, 0): Block('a:b')})
# A world directory inside another world's directory, such as a backup.
d = os.path.join(m.dir, 'backup'); os.mkdir(d); f = os.path.join(d, 'map.sqlite'); shutil.copy(n.file, f)
before = m.raw()
r = subprocess.run([BIN, '-y', d, 'fill', '--p1', '0', '0', '0', '--p2', '15', '15', '15', 'c:d'], capture_output=True)
assert m.raw() == before, 'the map of the parent directory was edited'
''','a world directory that lies inside another world directory','the outer map is edited instead')

bug('c18-empty-row','C18',[('utils.rs','''			if let Some(&block_version) = data.get(0) {''','''			if let &[block_version, _, ..] = data.as_slice() {'''),('map_block/map_block.rs','''	if src.len() < 2 {
		return false;
	}

	let mut crs''','''	let mut crs''')],'','','')

bug('c18-short-row','C18',[('map_block/map_block.rs','''	if src.len() < 2 {''','''	if src.is_empty() {''')],'''
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): bytes([28]), (2, 0, 0): Block('a:b')})
r = run(m, 'clone', '--p1', 0, 0, 0, '--p2', 47, 15, 15, '--offset', 1, 0, 0)
assert 'Done' in r.out, (r.out, r.stderr)
''','a row of a single byte, among the blocks cloned or overlaid','the command crashes')

bug('c10-whole-block','C10',[('commands/delete_timers.rs','''				if a.contains(abs_pos) == inst.args.invert {''','''				if a.contains_block(Vec3::from_block_key(key)) != a.touches_block(Vec3::from_block_key(key))
					&& a.rel_block_overlap(Vec3::from_block_key(key)).map_or(false, |p| p.contains(pos + 0)) == inst.args.invert {''')],'','','')

bug('c10-rev-order','C10',[('commands/delete_timers.rs','block.node_timers.remove(i);','block.node_timers.swap_remove(i);')],'''
b = Block('a:b'); b.timers = [(i, 100 + i, i) for i in range(8)]
m = Map({(0, 0, 0): b})
run(m, 'deletetimers', '--p1', 2, 0, 0, '--p2', 3, 0, 0)
assert m.get(0, 0, 0).timers == [t for t in b.timers if t[0] not in (2, 3)], m.get(0, 0, 0).timers
''','timers left behind after the deleted one','the remaining timers are stored in another order')

bug('c06-count-whole','C23',[('commands/set_param2.rs','			count += 4096 - area.volume();','			count += area.volume();')],'''
m = Map({(0, 0, 0): Block('a:b')})
r = run(m, 'setparam2', 9, '--p1', 0, 0, 0, '--p2', 3, 0, 0, '--invert')
assert 'Set param2 of 4.09k' in r.out, r.out
''','setparam2 --invert without --node on a partly selected block','the number of nodes reported is that of the nodes left alone')

bug('c04-unused-old','C04',[('commands/replace_nodes.rs','''			block.nimap.remove_shift(old_id);
			// Shift''','''			if nodes.contains(&old_id) {
				block.nimap.remove_shift(old_id);
			}
			// Shift''')],'''
b = Block('x:x'); b.names = ['p:p', 'a:b', 'x:x', 'c:d', 'y:y']; b.nodes[5] = 'c:d'; b.nodes[6] = 'y:y'; b.nodes[9] = 'p:p'
m = Map({(0, 0, 0): b})
run(m, 'replacenodes', 'a:b', 'c:d')
assert m.get(0, 0, 0).nodes == b.nodes
''','the old name listed in a block where no node has it any more, beside the new name','other nodes get wrong names or IDs without a name')

bug('c23-query-skip','C23',[('commands/delete_objects.rs','			{ inst.status.inc_failed(); continue; });','			{ if inst.args.area.is_none() { inst.status.inc_failed(); } continue; });')],'''
b = Block('a:b'); b.objs = [(7, (0, 0, 0), lua_entity(b'mobs:cow', b''))]
m = Map({(0, 0, 0): b, (1, 0, 0): b'\\x1c\\0\\0\\0\\2\\2nonsense'})
r = run(m, 'deleteobjects', '--p1', 0, 0, 0, '--p2', 40, 40, 40)
assert 'Skipped 1 ' in r.out, r.out
''','deleteobjects with an area over an undecodable block','skipped blocks are not reported')

bug('c01-ts-v29','C01',[('map_block/map_block.rs','			enc.write_u32::<BigEndian>(self.timestamp).unwrap();','			enc.write_u32::<BigEndian>(self.timestamp & 0x7FFF_FFFF).unwrap();')],'''
b = Block('a:b', ver=29, ts=0xFFFFFFFF)
m = Map({(0, 0, 0): b})
run(m, 'replacenodes', 'a:b', 'c:d')
assert m.get(0, 0, 0).ts == 0xFFFFFFFF
''','a version 29 block whose timestamp is undefined (all bits set)','the timestamp changes')

bug('c02-empty-table','C02',[('block_utils.rs','''		// Skip unused IDs.
		if !used[id as usize] {
			continue;
		}
''','''		// Skip unused IDs.
		if !used[id as usize] && !name.contains(&b' ') {
			continue;
		}
'''),],'','','')

bug('c03-touch-z','C03',[('spatial/area.rs','''			&& self.min.z <= corner.z + 15 && corner.z <= self.max.z
	}''','''			&& self.min.z < corner.z + 15 && corner.z <= self.max.z
	}''')],'''
m = Map({(0, 0, 0): Block('a:b', ver=29)})
run(m, 'setparam2', 7, '--p1', 0, 0, 15, '--p2', 15, 15, 20)
b = m.get(0, 0, 0)
assert sum(b.p2) == 7 * 256, sum(b.p2)
''','an area reaching only into the last layer of nodes of a block along Z','the whole block, or nothing of it, is treated as selected')

bug('c13-timers','C13',[('commands/overlay.rs','''						merge_blocks(&dst_block, &mut src_block,
							block_part, block_part);''','''						src_block.timestamp = dst_block.timestamp;
						src_block.static_objects.retain(|_| true);
						merge_blocks(&dst_block, &mut src_block,
							block_part, block_part);''')],'','','')

bug('c14-dst-cache','C14',[('commands/overlay.rs','''				get_cached(idb, &mut src_block_cache, src_key),
				continue''','''				get_cached(idb, &mut src_block_cache, src_key & 0xFF_FFFF_FFFF),
				continue''')],'','','')

bug('c14-edge-block','C14',[('commands/overlay.rs','''			if !src_pos.is_valid_block_pos() {
				continue;
			}
			let src_key''','''			if !(src_pos * 16).is_valid_node_pos() {
				continue;
			}
			let src_key''')],'','','')

bug('c14-neg-offset','C14',[('commands/overlay.rs','''			Area::new(dst_pos * 16, dst_pos * 16 + 15),
			|a| a''','''			Area::new(dst_pos * 16, dst_pos * 16 + if offset.y % 16 == -8 { 14 } else { 15 }),
			|a| a''')],'','','')

bug('c16-commit','C16',[('map_database.rs','''		self.conn.execute("VACUUM")?;''','''		self.conn.execute("DELETE FROM blocks WHERE data IS NULL OR length(data) < 2; VACUUM")?;''')],'''
m = Map({(0, 0, 0): Block('a:b'), (1, 0, 0): b'', (2, 0, 0): b'\\x1c'})
before = m.raw()
run(m, 'vacuum')
assert m.raw() == before
''','vacuum of a map with an empty or one-byte row','such rows are removed')

bug('c15-touching','C15',[('commands/delete_blocks.rs','inst.args.invert, false);','inst.args.invert, inst.args.area.map_or(false, |a| a.min == a.max));')],'''
m = Map({(0, 0, 0): Block('a:b')})
before = m.raw()
run(m, 'deleteblocks', '--p1', 5, 5, 5, '--p2', 5, 5, 5)
assert m.raw() == before
''','an area of a single node','the mapblock around it is deleted although not fully inside')

bug('c08-first-node','C08',[('commands/set_meta_var.rs','''			if !node_ids.is_empty()
				&& !node_ids.contains(''','''			if !node_ids.is_empty() && idx > 0
				&& !node_ids.contains(''')],'''
b = Block('x:x'); b.nodes[9] = 'a:b'
for i in (0, 9): b.meta[i] = ([(b'k', b'old', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b})
run(m, 'setmetavar', 'k', 'new', '--nodes', 'a:b')
q = m.get(0, 0, 0).meta
assert q[9][0] == [(b'k', b'new', 0)] and q[0][0] == [(b'k', b'old', 0)], q
''','metadata of the node in the first corner of a block, with --nodes','the variable of another node is changed')

bug('c07-invert-node','C07',[('commands/delete_meta.rs','''			if let Some(id) = node_id {
				if''','''			if let Some(id) = node_id.filter(|_| !inst.args.invert || inst.args.area.is_none()) {
				if''')],'''
b = Block('x:x'); b.nodes[9] = 'a:b'
for i in (0, 9, 300): b.meta[i] = ([(b'k', b'old', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b})
run(m, 'deletemeta', '--node', 'a:b', '--p1', 0, 0, 0, '--p2', 3, 3, 3, '--invert')
assert sorted(m.get(0, 0, 0).meta) == [0, 300], m.get(0, 0, 0).meta
''','deletemeta with --node and --invert together','metadata of other nodes is deleted too')
