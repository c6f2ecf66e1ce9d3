#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSONL is unpleasant to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or ["rows of the map database before and after a run of the mapeditr executable"]
    d['anchors']['hook_needed']=hook
    P.append(d)
MB="src/map_block/map_block.rs"; MD="src/map_block/metadata.rs"; U="src/utils.rs"; I="src/instance.rs"; DB="src/map_database.rs"
BU="src/block_utils.rs"; CL="src/cmd_line.rs"; AREA="src/spatial/area.rs"; V3="src/spatial/vec3.rs"; SP="src/spatial/mod.rs"
NOTEST="The 22 unit tests never run a command or open a database; "

p("C01","A rewritten mapblock keeps everything the command was not asked to change",
"Whenever a command rewrites a well-formed mapblock of any supported version (25 to 29), the stored result has the same format version, flags, lighting mask, timestamp, nodes, param1, param2, node metadata (variables, private marks where the version can store them, inventories), objects and node timers as before, except for exactly what the command's documentation says it changes. This holds for content of any size or kind that Minetest can store, including large or binary strings, many metadata entries, objects or timers, and extreme numeric values. Metadata entries holding neither variables nor an inventory may be dropped.",
["inputs","configurations"],"every command, every supported mapblock version, every well-formed block content",
"Tests round-trip three small sample blocks and a few literal metadata strings; nothing exercises large strings, many entries, versions 26/27, or any command's rewrite.",
[MB,MD,"src/map_block/static_object.rs","src/map_block/node_timer.rs","src/map_block/name_id_map.rs","src/map_block/node_data.rs","src/map_block/mod.rs"],
[("MapBlock::deserialize / serialize",MB),("NodeMetadataList serialize/compress",MD),("write_string16/32","src/map_block/mod.rs")])
p("C02","Every stored block stays well-formed through any sequence of commands",
"Starting from a well-formed map, after any sequence of successful commands every stored mapblock is still well-formed: it decodes completely with nothing left over, all node IDs in use have exactly one name and no name appears twice, metadata positions are ascending, unique and within the block, and each section uses the layout its block version prescribes. The map's contents are those obtained by applying the documented effect of each command in order, so edits never degrade or interfere with later ones.",
["histories","inputs"],"every finite sequence of commands on every well-formed map",
NOTEST+"no test applies two operations in a row or validates the produced block.",
[MB,BU,"src/map_block/name_id_map.rs","src/commands/replace_nodes.rs","src/commands/fill.rs"],
[("clean_name_id_map",BU),("NameIdMap::remove_shift","src/map_block/name_id_map.rs"),("NodeMetadataList::serialize",MD)])
p("C03","Nothing outside the selected area is touched and no row appears or vanishes",
"A command given an area (or an inverted area) leaves every mapblock that has no node inside the selected region byte-for-byte unchanged in the database, and leaves every node, param, metadata entry, object and timer outside the selected region of a partially selected mapblock unchanged. Apart from deleteblocks removing rows and overlay without an offset adding them, the set of stored mapblock positions never changes, and nothing else in the database file (other tables, schema, user settings) changes.",
["inputs","configurations"],"every command, area, inversion and map, at every coordinate up to the map limits",
NOTEST+"only the geometry helpers are tested on a few boxes.",
[U,AREA,V3,SP,"src/commands"],
[("query_keys",U),("Area::rel_block_overlap / contains / touches_block",AREA),("InverseBlockIterator",SP),("Vec3::from_block_key",V3)])
p("C04","replacenodes replaces exactly the selected nodes of the given name",
"After `replacenodes <node> <new_node>`, every node named <node> inside the selection (the area, its complement with --invert, or the whole map) is named <new_node>; every other node keeps its name; and param1, param2, metadata, objects and timers are unchanged. This holds whether or not <new_node> already occurs in the block and wherever <node> stands in the block's name table.",
["inputs"],"every map, pair of names, area and inversion",NOTEST+"replacenodes has no test at all.",
["src/commands/replace_nodes.rs","src/map_block/name_id_map.rs"],[("do_replace","src/commands/replace_nodes.rs"),("remove_shift","src/map_block/name_id_map.rs")])
p("C05","fill sets exactly the selected nodes of generated blocks",
"After `fill`, every node inside the selection that lies in a stored, generated mapblock has the given name, every other node keeps its name, and param1, param2, metadata, objects and timers are unchanged. Mapblocks that are not yet generated (absent, or stored but marked as not generated) are not affected.",
["inputs"],"every map, node name, area and inversion",NOTEST+"fill has no test at all.",
["src/commands/fill.rs",BU,SP],[("fill / fill_area","src/commands/fill.rs"),("clean_name_id_map",BU),("InverseBlockIterator",SP)])
p("C06","setparam2 sets param2 of exactly the selected nodes",
"After `setparam2 [--node <node>] <param2>`, param2 equals the given value (0 to 255) for every node inside the selection that has the given name (any name if none is given), and every other param2 value, all nodes, param1, metadata, objects and timers are unchanged.",
["inputs"],"every map, optional node name, area, inversion and value 0..255",NOTEST+"setparam2 has no test at all.",
["src/commands/set_param2.rs",CL],[("set_param2 / set_param2_partial","src/commands/set_param2.rs"),("parse_cmd_line_args",CL)])
p("C07","deletemeta deletes exactly the selected node metadata",
"After `deletemeta`, no node inside the selection (and with the given name, if --node is used) has metadata or an inventory, and every other node's metadata, and all nodes, params, objects and timers, are unchanged.",
["inputs"],"every map, optional node name, area and inversion",NOTEST+"deletemeta has no test at all.",
["src/commands/delete_meta.rs"],[("delete_metadata","src/commands/delete_meta.rs")])
p("C08","setmetavar sets or deletes exactly the selected metadata variables",
"After `setmetavar <key> <value>`, every selected node (inside the selection and named in --nodes, if given) whose metadata already has the variable <key> has it set to <value> with its private mark kept; with --delete the variable is gone. Nodes without the variable do not gain it, and all other variables, inventories, nodes, params, objects and timers are unchanged.",
["inputs"],"every map, key, value, node list, area and inversion",NOTEST+"setmetavar has no test at all.",
["src/commands/set_meta_var.rs",MD],[("set_meta_var","src/commands/set_meta_var.rs")])
p("C09","deleteobjects deletes exactly the selected objects",
"After `deleteobjects`, exactly those objects are gone whose position, rounded to the nearest node, lies inside the selection and which match the filter: any object without a filter, the named entity with --obj, dropped items with --items, or dropped items whose item name is one of the names listed after --items (in every form in which Minetest has stored a dropped item: bare item string, old or new serialized table). All remaining objects keep their order and content, and nodes, params, metadata and timers are unchanged.",
["inputs"],"every map, object population, filter, area and inversion",
"One test covers item-name extraction on eight strings; selection, positions and deletion are untested.",
["src/commands/delete_objects.rs","src/map_block/static_object.rs"],[("can_delete / get_item_name","src/commands/delete_objects.rs"),("LuaEntityData::deserialize","src/map_block/static_object.rs")])
p("C10","deletetimers deletes exactly the selected node timers",
"After `deletetimers`, exactly the node timers located inside the selection (and on a node with the given name, if --node is used) are gone; the remaining timers keep their order and values, and nodes, params, metadata and objects are unchanged.",
["inputs"],"every map, optional node name, area and inversion",NOTEST+"deletetimers has no test at all.",
["src/commands/delete_timers.rs"],[("delete_timers","src/commands/delete_timers.rs")])
p("C11","replaceininv changes exactly the matching item stacks",
"After `replaceininv <item>`, in the inventories of the selected nodes (inside the selection and named in --nodes, if given) every stack of exactly <item> is renamed to the new item keeping count, wear and metadata, or emptied with --delete; with --deletemeta the affected stacks lose only their metadata. All other stacks, lists, list sizes and widths, metadata variables, nodes, params, objects and timers are unchanged.",
["inputs"],"every map, inventory content, item names, options, node list, area and inversion",
"One test runs the line rewriter on one inventory with three option sets; selection and the rest of the block are untested.",
["src/commands/replace_in_inv.rs",MD],[("do_replace / replace_in_inv","src/commands/replace_in_inv.rs")])
p("C12","clone copies the source area's original content to the destination",
"After `clone`, every node of the destination area whose mapblock is generated, and whose source node's mapblock is generated, has the node, param1, param2 and metadata (or absence of metadata) that its source node had before the command started, even if source and destination overlap and however large the area is. Everything else is unchanged: nodes without a generated source, objects, timers, and all content outside the destination area.",
["inputs"],"every map, area and offset, including overlapping, unaligned, zero and map-sized ones",NOTEST+"clone, the block merge and the block cache have no test at all.",
["src/commands/clone.rs",BU,U],[("clone (processing order, cache)","src/commands/clone.rs"),("merge_blocks / merge_metadata",BU),("CacheMap",U)],
state=[("block_cache","pre-command copies of recently read blocks","src/commands/clone.rs")])
p("C13","overlay without an offset copies exactly the selection from the source map",
"After `overlay` without an offset (or with a zero offset), each generated source mapblock wholly inside the selection replaces or is added to the main map as an identical block; for a mapblock only partly inside, present and generated in both maps, exactly the selected nodes take the source's node, param1, param2 and metadata while the other nodes keep the main map's. Source mapblocks that are absent or not generated change nothing, a partly selected mapblock that is not generated in the main map is not created, and all else in the main map is unchanged.",
["inputs","configurations"],"every pair of maps (also of different block versions), area and inversion",NOTEST+"overlay has no test at all.",
["src/commands/overlay.rs",BU],[("overlay_no_offset","src/commands/overlay.rs"),("merge_blocks / merge_metadata",BU)])
p("C14","overlay with an offset copies exactly the shifted selection",
"After `overlay --offset`, every node of a generated mapblock of the main map that lies in the shifted area (anywhere, if no area is given) and whose source node lies in a generated mapblock of the source map takes that source node's node, param1, param2 and metadata (or absence of metadata). Nothing else in the main map changes, and no mapblock is created.",
["inputs","configurations"],"every pair of maps, optional area and every nonzero offset",NOTEST+"overlay with offset has no test at all.",
["src/commands/overlay.rs",BU,U],[("overlay_with_offset","src/commands/overlay.rs"),("CacheMap",U),("merge_blocks",BU)])
p("C15","deleteblocks deletes exactly the blocks fully inside (or fully outside) the area",
"After `deleteblocks`, exactly the stored mapblocks whose 16x16x16 nodes all lie inside the area (with --invert: all lie outside it) are gone, whatever their content; every other row is byte-for-byte unchanged.",
["inputs"],"every map (also with undecodable blocks), area and inversion",NOTEST+"deleteblocks has no test; block containment is tested for two boxes.",
["src/commands/delete_blocks.rs",U,AREA],[("delete_blocks","src/commands/delete_blocks.rs"),("query_keys",U),("to_contained_block_area / to_touching_block_area",AREA)])
p("C16","vacuum changes no map data and shrinks the file",
"After `vacuum`, the map holds exactly the same rows with the same bytes, passes an integrity check, has no unused pages left, and is not larger than before (but for the few pages which the database library itself may need or leave behind). This holds for any content, valid or not, and for any free space left by earlier deletions.",
["inputs","configurations"],"every map content and database layout (page size, auto-vacuum, free pages)",NOTEST+"the database layer has no test.",
["src/commands/vacuum.rs",DB],[("MapDatabase::vacuum",DB)],observe=["rows and pages of the database before and after"])
p("C17","Area and inverted area partition the map, regardless of corner order",
"For every command that takes an area, giving any two opposite corners of the same box in any order selects the same region. Running the command on the area and then on the inverted area has the same effect as running it on the whole map, and each single run changes only its own part (for deleteblocks: area and inverted area delete disjoint sets of blocks, leaving exactly the blocks cut by the area's surface).",
["inputs","histories"],"every map, area, corner order and area command",NOTEST+"area helpers are tested on a few boxes and never through a command.",
[AREA,SP,U,CL,"src/commands"],[("Area::from_unsorted",AREA),("query_keys",U),("InverseBlockIterator",SP)])
p("C18","Damaged or unsupported blocks are skipped, never crash or stop a command",
"Whatever bytes are stored as mapblocks, every command runs to completion without crashing: stored blocks it cannot decode, or whose version it does not support, are left byte-for-byte unchanged (unless the command deletes or overwrites whole blocks without reading them) and counted as skipped, and all well-formed blocks are edited exactly as if the damaged ones were absent. An undecodable block of the source map is never merged into a good block.",
["inputs","fault_sequences"],"every byte content of any subset of stored blocks, in the main and the source map",
"One test flips seven fields of one v28 block and calls the decoder directly; no command is ever run over damaged data.",
[MB,MD,"src/map_block/mod.rs","src/map_block/name_id_map.rs",BU,"src/commands"],[("MapBlock::deserialize error paths",MB),("inc_failed handling in each command","src/commands")])
p("C19","Invalid invocations are refused untouched; valid ones are accepted",
"An invocation whose arguments are missing, malformed, out of range or contradictory according to the manual (for example coordinates beyond +-31000, offsets beyond +-62000, --invert without an area, malformed node or item names, param2 outside 0..255, a path that is not a map database) is refused with an error message and leaves every file unchanged. Every invocation that is valid according to the manual, including values exactly at those limits, is carried out. Asking for help (-h, --help) prints it and does nothing else.",
["inputs"],"every argument combination of every command",NOTEST+"argument parsing and validation have no test.",
[I,CL,"src/commands",DB],[("verify_args",I),("per-command verify_args","src/commands"),("parse_cmd_line_args",CL),("verify_database",DB)],observe=["stdout/stderr of the executable","bytes of the database file and its directory"])
p("C20","Without confirmation nothing is modified",
"Unless -y/--yes is given, a warning is shown and the command runs only after the user has answered y or Y (ignoring surrounding blanks); with any other answer, an empty line or end of input, no file is modified. No write to the map happens before the answer has been read, and with -y no question is asked.",
["inputs","schedules"],"every command, every answer and every timing of the answer",NOTEST+"the prompt and the worker thread hand-shake have no test.",
[I,CL],[("StatusServer::get_confirmation / compute_thread",I),("get_confirmation",CL)],observe=["stdin/stdout of the executable","system-call trace of database writes (LD_PRELOAD shim)"])
p("C21","A command takes effect completely or not at all",
"If the process is killed, the machine loses power (on a file system that keeps the order of directory changes), or any storage operation fails at any point of a command, then on the next opening the map contains either exactly the data from before the command or exactly the command's full result, never a mixture, and is never corrupt. Once success (Done) has been reported, the full result survives all of these; when a storage failure prevented the command, success is not reported.",
["crash_points","fault_sequences"],"every point between two file operations, every failing file or database operation, for every modifying command",
NOTEST+"transactions and error paths have no test, and no test injects a crash or a fault.",
[DB,I],[("single transaction: BEGIN in MapDatabase::new, commit_if_needed",DB),("commit after the command function in compute_thread",I)],
observe=["recorded file operations of the database library, replayed into crash images","database state after injected faults and kills"],state=[("in_transaction","an uncommitted transaction is open",DB)])
p("C22","overlay never modifies the source map",
"While and after `overlay` runs, in every variant and also if it fails or is killed, the source map's file keeps its exact bytes, is only ever opened for reading, and (unless the source is in write-ahead-log mode, which the game does not use and where readers need side files) no journal or other file is created beside it.",
["inputs","crash_points","fault_sequences"],"every pair of maps, overlay arguments, failure and kill point",NOTEST+"overlay has no test.",
[I,"src/commands/overlay.rs"],[("read-only open of the input map",I)],observe=["open/write system calls on the source path","bytes of the source directory"])
p("C23","Reported counts, skipped blocks and progress are truthful",
"The summary printed by a command states the number of nodes, metadata entries, objects, timers or item stacks it actually selected and edited (up to the precision displayed), the number of skipped blocks equals the number of selected blocks it examined and could not decode, and the last progress display of a finished editing phase reads 100% whenever at least one block was selected. For deleteblocks, the number of blocks reported as found equals the number of blocks deleted.",
["inputs"],"every map and command",
"One test formats ten numbers; what is counted is untested.",
["src/commands",U,CL,I],[("count variables in each command","src/commands"),("fmt_big_num",U),("inc_done / inc_failed / set_total",I),("print_editing_status",CL)],observe=["stdout of the executable"])
p("C24","No memory error, undefined behaviour or data race on any input",
"For every map content, valid or hostile, and every command, the program performs no out-of-bounds or use-after-free access, never lets uninitialised memory influence its behaviour or reach a file, and its two threads have no data race.",
["inputs","schedules"],"every stored byte content, command and interleaving of worker and user-interface thread",
"Tests run without sanitizers, on well-formed samples and one thread; the code builds buffers with uninitialised length.",
["src/map_block/mod.rs","src/map_block/node_data.rs",MD,I],[("vec_with_len / try_read_n","src/map_block/mod.rs"),("StatusServer/StatusClient shared state",I)],observe=["AddressSanitizer, MemorySanitizer and ThreadSanitizer reports of the real executable"])
p("C25","Every run terminates with one truthful outcome under any thread timing",
"However the worker thread, the user-interface thread, the reader of its output and the database are delayed, every accepted command finishes; it prints its messages in the order warnings, confirmation prompt, query, edit progress, summary, outcome, and prints the success message exactly once, last, and only if the result is stored. The elapsed time displayed never goes back and agrees with the clock. Thread timing never changes the resulting map.",
["schedules"],"every relative speed of worker thread, UI thread, output consumer, input provider and storage",NOTEST+"no test starts the worker thread.",
[I,CL],[("status_link channels, spawn_compute_thread",I),("run_cmd_line event loop",CL)],observe=["stdout stream with timing perturbation by an LD_PRELOAD shim","exit of the process"])
p("C26","Results do not depend on how the map happens to be stored",
"Two maps with the same logical content give the same logical result under any command, regardless of block version (25 to 29, apart from features an old version cannot store), numbering and order of the block's name table, compression, order of metadata variables, order of rows in the database, database page size, or whether the map is addressed by its directory or its file. Repeating a run on the same map gives the same logical result.",
["inputs","configurations"],"every logical map, every pair of representations of it, every command",NOTEST+"only three sample blocks in one representation each are read.",
[MB,U,I,BU],[("query_keys text prefilter for old versions",U),("version branches in MapBlock",MB),("open_map",I)])
p("C27","Commands are isolated from other programs that use the maps at the same time",
"If another program (the game's own server, a second MapEditr) opens the map and changes it in transactions of its own while a command waits for its confirmation or runs, or changes the source map while overlay runs, then the map finally holds the result of those of them that reported success, done one after the other in some order: none of their changes is lost or seen in part, and a command that cannot be carried out because of the other program changes nothing and does not report success. Another program's change that was refused is no reason for a command to fail afterwards.",
["schedules","histories"],"every command, every change made by another program or a second run, and every moment at which the two meet, in rollback-journal and write-ahead-log mode",
NOTEST+"no test has two users of one map.",
[DB,I,U],[("BEGIN on opening, held until COMMIT after the command",DB),("transaction on the source map",I),("keys queried first, blocks read one by one later",U)],
observe=["rows of both map databases after two overlapping runs, compared with those after the serial runs"],state=[("in_transaction","the snapshot the command works on is held",DB)])
p("C28","Memory, time, handles and output stay bounded however large the map",
"However large the map, a command's peak memory grows by at most a few hundred bytes per stored mapblock beyond a fixed amount (positions may be listed; the contents of blocks are not accumulated), processor time grows no faster than in proportion to the number of stored mapblocks of one kind, the number of threads and open files does not depend on the map, and output is limited to a few progress displays per second.",
["inputs"],"every command on maps of any number and size of mapblocks",NOTEST+"no test handles more than a few blocks, and none measures anything.",
[U,DB,I,CL,"src/commands"],[("query_keys / CacheMap",U),("iter_rows",DB),("OptionalBlockCache","src/commands/overlay.rs"),("BLOCK_CACHE_SIZE","src/commands/clone.rs"),("UPDATE_INTERVAL",CL)],
observe=["peak resident memory, processor time, threads and open files of the process (/proc, wait4)","number of bytes of output"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
