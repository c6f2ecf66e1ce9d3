H='''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mt import *
'''
BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=H+demo, needs=needs, breaks=breaks, **k))

bug('c01-objects-limit','C01',[('map_block/static_object.rs','	for _ in 0..count {\n		list.push','	for _ in 0..min(count, 64) {\n		list.push')],'''
b = Block(ver=29); b.nodes[0] = 'a:b'
b.objs = [(7, (i * 100, 0, 0), lua_entity(b'mobs:cow', b'%d' % i)) for i in range(64)]
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d'); b.nodes[0] = 'c:d'
assert same(m.get(0, 0, 0), b)
# a v29 block whose tail happens to parse after 64 objects
b.nodes[0] = 'a:b'
b.objs = [(7, (i * 100, 0, 0), lua_entity(b'mobs:cow', b'%d' % i)) for i in range(90)]
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d'); b.nodes[0] = 'c:d'
assert same(m.get(0, 0, 0), b), 'objects lost or block skipped'
''','a block holding more than 64 static objects','objects beyond the 64th are dropped, or the block can no longer be decoded and is skipped')

bug('c01-private-flag','C01',[('map_block/metadata.rs','let version = if block_version >= 28 { 2 } else { 1 };','let version = if block_version > 28 { 2 } else { 1 };')],'''
b = Block(ver=28); b.nodes[0] = 'a:b'
b.meta[7] = ([(b'formspec', b'x', 0), (b'secret', b'y', 1)], b'EndInventory\\n')
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d'); b.nodes[0] = 'c:d'
assert same(m.get(0, 0, 0), b), 'private mark lost'
''','a version 28 block with metadata variables marked private','the private marks are lost when the block is rewritten')

bug('c01-timer-elapsed','C01',[('map_block/node_timer.rs','		timers.push(NodeTimer {pos, timeout, elapsed});','		timers.push(NodeTimer {pos, timeout, elapsed: min(elapsed, timeout)});')],'''
b = Block(); b.nodes[0] = 'a:b'; b.timers = [(4, 1000, 500), (5, 1000, 2500)]
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d'); b.nodes[0] = 'c:d'
assert same(m.get(0, 0, 0), b), 'timer changed'
''','a node timer whose elapsed time exceeds its timeout','elapsed time of overdue timers is changed whenever the block is rewritten')

bug('c02-partial-remove','C02',[('commands/replace_nodes.rs','		if !nodes.contains(&old_id) {\n','		if !invert && node_area.contains(Vec3::new(0, 0, 0)) || !nodes.contains(&old_id) {\n')],'''
b = Block(); b.nodes = ['air'] * 4096; b.nodes[0] = 'a:b'; b.nodes[4095] = 'a:b'; b.nodes[9] = 'z:z'; b.names = ['air', 'a:b', 'z:z']
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', '--p1', 0, 0, 0, '--p2', 3, 3, 3, '--', 'a:b', 'c:d')
g = m.get(0, 0, 0)
assert g.nodes[0] == 'c:d' and g.nodes[4095] == 'a:b' and g.nodes[9] == 'z:z', (g.nodes[0], g.nodes[4095], g.nodes[9])
''','a partially selected block where the low corner is selected and the old node remains elsewhere','the old name is removed from the name table while nodes still use it')

bug('c03-key-order','C03',[('utils.rs','			if block_version <= 28 && !data_searchers','			if block_version <= 29 && !data_searchers')] if False else [('spatial/area.rs','''	pub fn touches_block(&self, block_pos: Vec3) -> bool {
		let corner = block_pos * 16;
		self.min.x <= corner.x + 15''','''	pub fn touches_block(&self, block_pos: Vec3) -> bool {
		let corner = block_pos * 16;
		self.min.x < corner.x + 15 + (self.min.x == self.max.x) as i32''')],'''
# An area two nodes wide whose first plane is the last plane of a block.
b = {(0, 0, 0): Block('a:b'), (1, 0, 0): Block('a:b')}
m = Map(b); run(m, 'fill', '--p1', 15, 0, 0, '--p2', 40, 15, 15, '--invert', '--', 'c:d')
g = m.get(0, 0, 0)
assert all(g.nodes[i] == ('a:b' if i % 16 == 15 else 'c:d') for i in range(4096)), 'nodes inside the area changed'
assert set(m.get(1, 0, 0).nodes) == {'a:b'}
''','an area that covers only the last x plane of a block and extends further','a block that the area covers in a single plane counts as untouched: inverted edits change nodes inside the area')

bug('c03-copy-row','C03',[('block_utils.rs','''	// Delete any existing metadata in the destination area.
	let mut to_delete = Vec::with_capacity(dst_meta.len());
	for (&idx, _) in dst_meta.iter() {
		let pos = Vec3::from_u16_key(idx);
		if dst_area.contains(pos) {
			to_delete.push(idx);
		}
	}''','''	// Delete any existing metadata in the destination area.
	let first = dst_area.min.x + dst_area.min.y * 16 + dst_area.min.z * 256;
	let last = dst_area.max.x + dst_area.max.y * 16 + dst_area.max.z * 256;
	let mut to_delete = Vec::with_capacity(dst_meta.len());
	for (&idx, _) in dst_meta.range(first as u16 ..= last as u16) {
		to_delete.push(idx);
	}''')],'''
s = Block('x:x'); d = Block('a:b')
for i in (idx(2, 2, 2), idx(9, 3, 2), idx(3, 3, 3), idx(1, 3, 3)): d.meta[i] = ([(b'k', b'v', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): d, (5, 0, 0): s})
run(m, 'clone', '--p1', 82, 2, 2, '--p2', 84, 4, 4, '--offset', -80, 0, 0)
g = m.get(0, 0, 0)
assert idx(9, 3, 2) in g.meta and idx(1, 3, 3) in g.meta, 'metadata outside the destination deleted'
assert idx(2, 2, 2) not in g.meta and idx(3, 3, 3) not in g.meta
''','clone or overlay into part of a block with metadata between the corners of the area in index order but outside it','metadata of nodes outside the destination area is deleted')

bug('c04-newid-shift','C04',[('commands/replace_nodes.rs','			new_id -= (new_id > old_id) as u16;\n','			new_id = new_id.saturating_sub((old_id == 0) as u16);\n')],'''
b = Block('air'); b.names = ['air', 'a:b', 'm:m', 'c:d']
for i in range(100): b.nodes[i] = 'a:b'; b.nodes[200 + i] = 'c:d'; b.nodes[400 + i] = 'm:m'
m = Map({(0, 0, 0): b}); run(m, 'replacenodes', 'a:b', 'c:d')
g = m.get(0, 0, 0)
assert g.nodes == [('c:d' if n == 'a:b' else n) for n in b.nodes], 'wrong nodes after replacing'
''','a fully selected block that already contains the new node with an ID above that of the old node, which is not ID 0','nodes are turned into a different existing node or get an unnamed ID')

bug('c05-fill-cache-id','C05',[('commands/fill.rs','			let fill_id = block.nimap.get_id(&node).unwrap_or_else(|| {','			let fill_id = block.nimap.0.iter()\n				.find(|(_, n)| n.starts_with(&node)).map(|(&id, _)| id)\n				.unwrap_or_else(|| {')],'''
b = Block('default:stone_brick'); b.nodes[5] = 'air'
m = Map({(0, 0, 0): b}); run(m, 'fill', '--p1', 0, 0, 0, '--p2', 3, 15, 15, '--', 'default:stone')
g = m.get(0, 0, 0)
assert all(g.nodes[i] == ('default:stone' if i % 16 <= 3 else b.nodes[i]) for i in range(4096)), g.nodes[0]
''','a partially selected block that contains a node whose name begins with the name to fill with','the area is filled with the longer-named node')

bug('c06-other-node','C06',[('commands/set_param2.rs','		if inst.args.node.is_some() && node_id.is_none() {\n','		if inst.args.node.is_some() && node_id.is_none() && block.version < 29 {\n')],'''
b = Block('air', ver=29); b.nodes[0] = 'z:z'; b.p2[3] = 9
m = Map({(0, 0, 0): b}); run(m, 'setparam2', '--node', 'a:b', '--', 77)
assert same(m.get(0, 0, 0), b), 'param2 of other nodes changed'
''','a version 29 block that does not contain the given node','param2 of every node of the block is changed')

bug('c07-area-or-node','C07',[('commands/delete_meta.rs','''			if let Some(id) = node_id {
				if block''','''			if let Some(id) = node_id.filter(|_| inst.args.area.map_or(true,
				|a| !a.contains_block(Vec3::from_block_key(key))))
			{
				if block''')],'''
b = Block('air'); b.nodes[1] = 'a:b'
for i in (1, 2): b.meta[i] = ([(b'k', b'v', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b}); run(m, 'deletemeta', '--node', 'a:b', '--p1', -5, -5, -5, '--p2', 40, 40, 40)
g = m.get(0, 0, 0)
assert sorted(g.meta) == [2], sorted(g.meta)
''','both a node name and an area that contains a whole block','metadata of all nodes in the block is deleted, not only that of the given node')

bug('c08-private-reset','C08',[('commands/set_meta_var.rs','					data.vars.get_mut(&key).unwrap().0 = value.clone();','					data.vars.insert(key.clone(), (value.clone(), false));')],'''
b = Block(); b.meta[9] = ([(b'k', b'v', 1), (b'l', b'w', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b}); run(m, 'setmetavar', 'k', 'new')
assert m.get(0, 0, 0).meta[9][0] == [(b'k', b'new', 1), (b'l', b'w', 0)], m.get(0, 0, 0).meta[9]
''','the variable being set is marked private','setting a private variable makes it public')

bug('c08-empty-nodes','C08',[('commands/set_meta_var.rs','			.filter_map(|n| block.nimap.get_id(n)).collect();','			.map_while(|n| block.nimap.get_id(n)).collect();')],'''
b = Block('air'); b.nodes[9] = 'b:b'; b.meta[9] = ([(b'k', b'v', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): b}); run(m, 'setmetavar', 'k', 'new', '--nodes', 'a:a', 'b:b')
assert m.get(0, 0, 0).meta[9][0] == [(b'k', b'new', 0)], m.get(0, 0, 0).meta[9]
''','several node names of which an earlier one is absent from the block','nodes named after an absent one are not edited')

bug('c09-many-objects','C09',[('commands/delete_objects.rs','			.map(|v| (v as i64 + DIV_FAC / 2).div_euclid(DIV_FAC) as i32);','			.map(|v| ((v as i64 + DIV_FAC / 2) / DIV_FAC) as i32);')] if False else [('commands/delete_objects.rs','''		for i in (0 .. block.static_objects.len()).rev() {
			if can_delete(''','''		for i in (0 .. block.static_objects.len().min(255)).rev() {
			if can_delete(''')],'''
b = Block(); b.objs = [(7, (i * 100, 0, 0), lua_entity(b'mobs:cow', b'')) for i in range(300)]
m = Map({(0, 0, 0): b}); run(m, 'deleteobjects', '--obj', 'mobs:cow')
assert m.get(0, 0, 0).objs == [], len(m.get(0, 0, 0).objs)
''','a block with more than 255 objects','objects after the 255th are not deleted')

bug('c09-itemname','C09',[('commands/delete_objects.rs','	if let Some(idx) = ITEM_NAME_SEARCHER_NEW.with(|s| s.search_in(data)) {\n		Some(idx + ITEM_NAME_PAT_NEW.len())\n	} else if let Some(idx) = ITEM_NAME_SEARCHER_OLD.with(|s| s.search_in(data)) {\n		Some(idx + ITEM_NAME_PAT_OLD.len())','	if let Some(idx) = ITEM_NAME_SEARCHER_OLD.with(|s| s.search_in(data)) {\n		Some(idx + ITEM_NAME_PAT_OLD.len() - (data.len() < 40) as usize * 0)\n	} else if let Some(idx) = ITEM_NAME_SEARCHER_NEW.with(|s| s.search_in(data)) {\n		Some(idx + ITEM_NAME_PAT_NEW.len())')] if False else [('commands/delete_objects.rs','				if !item_names.iter().any(|n| n == item_name) {','				if !item_names.iter().any(|n| item_name.ends_with(n)) {')],'''
b = Block(); st = lambda i: b'return {age=3,itemstring="%s 5"}' % i
b.objs = [(7, (0, 0, 0), lua_entity(b'__builtin:item', st(b'default:stone'))), (7, (9, 0, 0), lua_entity(b'__builtin:item', st(b'x_default:stone')))]
m = Map({(0, 0, 0): b}); run(m, 'deleteobjects', '--items', 'default:stone')
assert [o[1][0] for o in m.get(0, 0, 0).objs] == [9], m.get(0, 0, 0).objs
''','a dropped item whose name ends with a listed item name','items with a longer name ending in the listed one are deleted too')

bug('c10-timer-index','C10',[('commands/delete_timers.rs','''		for i in (0..block.node_timers.len()).rev() {''','''		let mut i = block.node_timers.len();
		while i > 0 {
			i -= 1;
			if i >= block.node_timers.len() { continue; }'''),('commands/delete_timers.rs','			block.node_timers.remove(i);','			block.node_timers.swap_remove(i);')] if False else [('commands/delete_timers.rs','				if block.node_data.nodes[pos_idx as usize] != id {','				if block.node_data.nodes[(pos_idx & 0xFF) as usize] != id {')],'''
b = Block('air'); b.nodes[300] = 'a:b'; b.nodes[3] = 'a:b'; b.timers = [(3, 1, 1), (300, 2, 2), (259, 3, 3)]
m = Map({(0, 0, 0): b}); run(m, 'deletetimers', '--node', 'a:b')
assert m.get(0, 0, 0).timers == [(259, 3, 3)], m.get(0, 0, 0).timers
''','timers of nodes not in the first layer of a block, with --node','the node at a wrong position decides whether a timer is deleted')

bug('c11-wear','C11',[('commands/replace_in_inv.rs','					if count != b"1" || wear != b"0" {','					if count != b"1" {')],'''
b = Block(); b.meta[1] = ([], b'List main 2\\nWidth 0\\nItem a:pick 1 300 \\x01k\\x02v\\x03\\nItem a:pick 2 300\\nEndInventoryList\\nEndInventory\\n')
m = Map({(0, 0, 0): b}); run(m, 'replaceininv', 'a:pick', 'b:pick', '--deletemeta')
assert m.get(0, 0, 0).meta[1][1] == b'List main 2\\nWidth 0\\nItem b:pick 1 300\\nItem b:pick 2 300\\nEndInventoryList\\nEndInventory\\n', m.get(0, 0, 0).meta[1][1]
''','an item with count 1 and non-zero wear, with --deletemeta','the wear is written in place of the count') 
BUGS=[b for b in BUGS if b]
bug('c11-meta-spaces','C11',[('commands/replace_in_inv.rs','		let mut parts = line.splitn(5, |&x| x == SPACE);','		let mut parts = line.splitn(6, |&x| x == SPACE)\n			.filter(|p| !p.is_empty());')],'''
inv = b'List main 1\\nWidth 0\\nItem a:book 1 0 \\x01text\\x02two  spaces\\x03\\nEndInventoryList\\nEndInventory\\n'
b = Block(); b.meta[1] = ([], inv)
m = Map({(0, 0, 0): b}); run(m, 'replaceininv', 'a:book', 'b:book')
assert m.get(0, 0, 0).meta[1][1] == inv.replace(b'a:book', b'b:book'), m.get(0, 0, 0).meta[1][1]
''','item metadata with two consecutive spaces near its start','item metadata loses a space when the item is renamed')

bug('c12-meta-stale','C12',[('commands/clone.rs','''			merge_metadata(&src_block.metadata, &mut dst_block.metadata,
				src_frag_rel, dst_frag_rel);''','''			if !src_block.metadata.is_empty() {
				merge_metadata(&src_block.metadata, &mut dst_block.metadata,
					src_frag_rel, dst_frag_rel);
			}''')],'''
d = Block('a:b'); d.meta[5] = ([(b'k', b'old', 0)], b'EndInventory\\n')
m = Map({(0, 0, 0): d, (3, 0, 0): Block('x:x')})
run(m, 'clone', '--p1', 48, 0, 0, '--p2', 63, 15, 15, '--offset', -48, 0, 0)
assert m.get(0, 0, 0).meta == {}, 'old metadata left on replaced nodes'
''','the source part has no metadata and the destination has some','metadata of the overwritten nodes survives')

bug('c12-damaged-source','C12',[('commands/clone.rs','			let src_key = src_pos.to_block_key();\n','			let src_key = src_pos.to_block_key();\n			if src_key == dst_key && dst_part_abs == dst_area { continue; }\n')],'''
b = Block('a:b')
for i in range(4096): b.nodes[i] = 'n:%d' % (i % 16)
m = Map({(0, 0, 0): b}); run(m, 'clone', '--p1', 0, 0, 0, '--p2', 5, 5, 5, '--offset', 8, 0, 0)
assert m.get(0, 0, 0).nodes[8:14] == ['n:%d' % i for i in range(6)], m.get(0, 0, 0).nodes[:16]
''','source and destination lie within one and the same block','nothing is copied')

bug('c13-invert-swapped','C13',[('commands/overlay.rs','''						merge_metadata(&dst_block.metadata, &mut src_block.metadata,
							block_part, block_part);
						clean''','''						merge_metadata(&src_block.metadata, &mut dst_block.metadata,
							block_part, block_part);
						clean''')],'''
M = lambda v: ([(b'k', v, 0)], b'EndInventory\\n')
d = Block('d:d'); s = Block('s:s')
for i in (0, 4095): d.meta[i] = M(b'dst'); s.meta[i] = M(b'src')
m, q = Map({(0, 0, 0): d}), Map({(0, 0, 0): s})
run(m, 'overlay', '--p1', 0, 0, 0, '--p2', 3, 3, 3, '--invert', src=q)
g = m.get(0, 0, 0)
assert g.nodes[0] == 'd:d' and g.nodes[4095] == 's:s' and g.meta == {0: M(b'dst'), 4095: M(b'src')}, g.meta
''','overlay --invert with metadata inside the area in a partially selected block','metadata inside the protected area is replaced by the source map\'s')

bug('c13-whole-ungenerated','C13',[('commands/overlay.rs','''			// No area; copy whole mapblock.
			let data = idb.get_block(key).unwrap();
			if is_valid_generated(&data) {''','''			// No area; copy whole mapblock.
			let data = idb.get_block(key).unwrap();
			if is_valid_generated(&data) || db.get_block(key).is_err() {''')],'''
s = Block('s:s', flags=8)
m, q = Map({(0, 0, 0): Block('d:d')}), Map({(0, 0, 0): s, (1, 0, 0): s})
run(m, 'overlay', src=q)
assert set(m.raw()) == {key(0, 0, 0)}, 'a not-generated block was copied'
''','a not-generated block in the source map at a position absent from the main map','not-generated blocks are copied from the source map')

bug('c14-cache-missing','C14',[('commands/overlay.rs','''			let src_key = src_pos.to_block_key();
''','''			let src_key = src_pos.to_block_key();
			if src_area.map_or(false, |a| !a.contains_block(src_pos))
				&& src_pos == dst_pos
			{
				continue;
			}
''')],'''
s = Block('s:s'); d = Block('d:d')
m, q = Map({(0, 0, 0): d}), Map({(0, 0, 0): s})
run(m, 'overlay', '--p1', 0, 0, 0, '--p2', 5, 5, 5, '--offset', 4, 4, 4, src=q)
g = m.get(0, 0, 0)
assert g.nodes[idx(4, 4, 4)] == 's:s' and g.nodes[idx(9, 9, 9)] == 's:s' and g.nodes[0] == 'd:d'
''','a small offset so that source and destination parts lie in blocks at the same position, with an area','nothing is copied from the block at the same position')
