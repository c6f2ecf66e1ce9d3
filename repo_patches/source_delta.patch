From 24bbc724c097c480c19ef8cf8ac99b1bec58f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 01/18] fix: setparam2 always panicked because its value was
 read from the wrong argument

---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From 05472cba3428fe237d8d916d5164bda8fbdb1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 02/18] fix: large strings could be cut short when a mapblock
 was compressed (write instead of write_all)

---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From c93536a53e4b66e0c7959c7c1b412dca8320bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 03/18] fix: fill changed mapblocks that are not yet generated

---
 src/commands/fill.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..63407ce 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -44,6 +44,9 @@ fn fill(inst: &mut InstBundle) {
 		let data = inst.db.get_block(key).unwrap();
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
+		if block.flags & 0x08 != 0 {
+			continue; // Mapblock is not generated.
+		}
 
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
-- 
2.43.0


From 4bd2f7aa628f0b7fbe83500f384221c5f4b02749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 04/18] fix: fill --invert reported the number of nodes that
 were not filled in partial mapblocks

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index 63407ce..67f1093 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -58,7 +58,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				block.node_data.nodes.len() as u64 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 473dfd1c881bd1d16656ca70c457abd45b37b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 05/18] fix: overlay copied parts of source mapblocks that are
 not yet generated

---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..cd49b8f 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -69,6 +69,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
+					if !is_valid_generated(&src_data) {
+						return Ok(());
+					}
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
-- 
2.43.0


From 542e86359497dc30b89b57c34c29e2f623209e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 06/18] fix: replacenodes did not count invalid mapblocks as
 done

---
 src/commands/replace_nodes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/commands/replace_nodes.rs b/src/commands/replace_nodes.rs
index 48653eb..79f89de 100644
--- a/src/commands/replace_nodes.rs
+++ b/src/commands/replace_nodes.rs
@@ -105,6 +105,7 @@ fn replace_nodes(inst: &mut InstBundle) {
 	let mut count = 0;
 
 	for key in keys {
+		inst.status.inc_done();
 		let data = inst.db.get_block(key).unwrap();
 
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
@@ -116,8 +117,6 @@ fn replace_nodes(inst: &mut InstBundle) {
 			let new_data = block.serialize();
 			inst.db.set_block(key, &new_data).unwrap();
 		}
-
-		inst.status.inc_done();
 	}
 
 	inst.status.end_editing();
-- 
2.43.0


From 0eab6d97298fe231a42113d5909a59a164240f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 07/18] fix: deleteobjects --items ignored items stored as a
 bare itemstring with a count

---
 src/commands/delete_objects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 47fcf88..57470a5 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -52,7 +52,8 @@ fn get_item_name<'a>(data: &'a [u8]) -> &'a[u8] {
 		}
 		b""
 	} else {
-		data
+		// Bare itemstring, which may also have a count etc. after the name.
+		data.split(|&c| c == b' ').next().unwrap_or(b"")
 	}
 }
 
-- 
2.43.0


From 726717c1c419bf9b8c01e297d9e9fe6adeffefd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:59 +0000
Subject: [PATCH 08/18] fix: rounding an object position near the 32-bit limit
 overflowed

---
 src/commands/delete_objects.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 57470a5..fa86447 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -67,9 +67,9 @@ fn can_delete(
 ) -> bool {
 	// Check area requirement
 	if let Some(a) = area {
-		const DIV_FAC: i32 = 10_000;
+		const DIV_FAC: i64 = 10_000;
 		let rounded_pos = obj.f_pos
-			.map(|v| (v + DIV_FAC / 2).div_euclid(DIV_FAC));
+			.map(|v| (v as i64 + DIV_FAC / 2).div_euclid(DIV_FAC) as i32);
 		if a.contains(rounded_pos) == invert {
 			return false; // Object not included in area.
 		}
-- 
2.43.0


From 3af4612cd255747aaba68bf7310198173dd68fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 09/18] fix: mapblocks with unnamed node IDs or out-of-range
 positions caused panics or data loss instead of being skipped

---
 src/map_block/map_block.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..63093c5 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -115,7 +115,7 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
-		Ok(Self {
+		let block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -127,7 +127,28 @@ impl MapBlock {
 			timestamp,
 			nimap: nimap.unwrap(),
 			node_timers
-		})
+		};
+		block.validate()?;
+		Ok(block)
+	}
+
+	/// Check that all node IDs have a name and that all metadata and node
+	/// timers are positioned within the mapblock.
+	fn validate(&self) -> Result<(), MapBlockError> {
+		let mut named = vec![false; u16::MAX as usize + 1];
+		for &id in self.nimap.0.keys() {
+			named[id as usize] = true;
+		}
+
+		let node_count = self.node_data.nodes.len();
+		if self.node_data.nodes.iter().all(|&id| named[id as usize])
+			&& self.metadata.keys().all(|&pos| (pos as usize) < node_count)
+			&& self.node_timers.iter().all(|t| (t.pos as usize) < node_count)
+		{
+			Ok(())
+		} else {
+			Err(MapBlockError::BadData)
+		}
 	}
 
 	pub fn serialize(&self) -> Vec<u8> {
-- 
2.43.0


From 948fd58cfee9e8af51ad61590ceecb728315505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:17 +0000
Subject: [PATCH 10/18] fix: node ID arithmetic overflowed in mapblocks with
 very high node IDs

---
 src/block_utils.rs         | 2 +-
 src/map_block/map_block.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/block_utils.rs b/src/block_utils.rs
index a8d1ca4..a2fbc56 100644
--- a/src/block_utils.rs
+++ b/src/block_utils.rs
@@ -104,7 +104,7 @@ pub fn merge_metadata(
 
 /// Culls duplicate and unused IDs from the name-ID map and node data.
 pub fn clean_name_id_map(block: &mut MapBlock) {
-	let id_count = (block.nimap.get_max_id().unwrap() + 1) as usize;
+	let id_count = block.nimap.get_max_id().unwrap() as usize + 1;
 
 	// Determine which IDs are used.
 	let mut used = vec![false; id_count];
diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index 63093c5..e2b1db3 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::block_utils::clean_name_id_map;
 use zstd;
 
 /*
@@ -115,7 +116,7 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
-		let block = Self {
+		let mut block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -129,6 +130,12 @@ impl MapBlock {
 			node_timers
 		};
 		block.validate()?;
+
+		// Node IDs can be any 16-bit number. Make sure there is always room to
+		// allocate new IDs.
+		if block.nimap.get_max_id() >= Some(block.node_data.nodes.len() as u16) {
+			clean_name_id_map(&mut block);
+		}
 		Ok(block)
 	}
 
-- 
2.43.0


From dbe521e2d2017d142bf80a6f0616f36d00a3fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 11/18] fix: leftover data after compressed node metadata was
 not noticed and got lost

---
 src/map_block/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 84c5aac..c8beae8 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -113,7 +113,7 @@ impl NodeMetadataListExt for NodeMetadataList {
 		let metadata = Self::deserialize(&mut cursor)?;
 
 		// Fail if there is leftover compressed data.
-		if decoder.read(&mut [0])? > 0 {
+		if (cursor.position() as usize) < buf.len() {
 			return Err(MapBlockError::BadData);
 		}
 
-- 
2.43.0


From 9ce6ca8037e1ba10785774e1e5930ff4690f8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 12/18] fix: failed reads were taken for missing mapblocks by
 clone and overlay

---
 src/commands/clone.rs   |  2 +-
 src/commands/overlay.rs |  6 +++---
 src/map_database.rs     | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/commands/clone.rs b/src/commands/clone.rs
index 5fdb0b3..38d6496 100644
--- a/src/commands/clone.rs
+++ b/src/commands/clone.rs
@@ -35,7 +35,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.get_block_opt(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.map(|d| MapBlock::deserialize(&d));
 			cache.insert(key, block.clone());
diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index cd49b8f..ec0ef73 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -65,7 +65,7 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 			} else { // Copy part of mapblock
 				let res = || -> Result<(), MapBlockError> {
 					let dst_data = opt_unwrap_or!(
-						db.get_block(key).ok()
+						db.get_block_opt(key).unwrap()
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
@@ -122,7 +122,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.get_block_opt(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.and_then(|d| MapBlock::deserialize(&d).ok());
 			cache.insert(key, block.clone());
@@ -152,7 +152,7 @@ fn overlay_with_offset(inst: &mut InstBundle) {
 
 		let dst_pos = Vec3::from_block_key(dst_key);
 		let dst_data = opt_unwrap_or!(
-			inst.db.get_block(dst_key).ok().filter(|d| is_valid_generated(d)),
+			inst.db.get_block_opt(dst_key).unwrap().filter(|d| is_valid_generated(d)),
 			continue
 		);
 		let mut dst_block = unwrap_or!(
diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..1bfc116 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -119,6 +119,18 @@ impl<'a> MapDatabase<'a> {
 		value
 	}
 
+	/// Get a block, or `None` if it does not exist. Unlike a missing block, a
+	/// failed read is an error.
+	pub fn get_block_opt(&mut self, map_key: i64)
+		-> Result<Option<Vec<u8>>, DBError>
+	{
+		match self.get_block(map_key) {
+			Ok(data) => Ok(Some(data)),
+			Err(DBError::MissingData) => Ok(None),
+			Err(e) => Err(e)
+		}
+	}
+
 	pub fn set_block(&mut self, map_key: i64, data: &[u8])
 		-> Result<(), DBError>
 	{
-- 
2.43.0


From c0dd082bacc60f56da62eb9bf74cc6fff0272217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:42 +0000
Subject: [PATCH 13/18] fix: vacuum reported a failure and then claimed to be
 done

---
 src/commands/vacuum.rs |  5 ++++-
 src/instance.rs        | 11 +++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/commands/vacuum.rs b/src/commands/vacuum.rs
index 8e6caad..f248e23 100644
--- a/src/commands/vacuum.rs
+++ b/src/commands/vacuum.rs
@@ -15,7 +15,10 @@ fn vacuum(inst: &mut InstBundle) {
 		Ok(_) => {
 			inst.status.log_info("Completed vacuum.");
 		},
-		Err(e) => inst.status.log_error(format!("Vacuum failed: {}.", e))
+		Err(e) => {
+			inst.status.log_error(format!("Vacuum failed: {}.", e));
+			inst.status.set_command_failed();
+		}
 	}
 }
 
diff --git a/src/instance.rs b/src/instance.rs
index 6a9e8e5..de5b436 100644
--- a/src/instance.rs
+++ b/src/instance.rs
@@ -71,6 +71,7 @@ pub struct InstStatus {
 	pub blocks_total: usize,
 	pub blocks_done: usize,
 	pub blocks_failed: usize,
+	pub command_failed: bool,
 	pub state: InstState
 }
 
@@ -81,6 +82,7 @@ impl InstStatus {
 			blocks_total: 0,
 			blocks_done: 0,
 			blocks_failed: 0,
+			command_failed: false,
 			state: InstState::Ignore
 		}
 	}
@@ -144,6 +146,11 @@ impl StatusServer {
 		self.status.lock().unwrap().blocks_failed += 1;
 	}
 
+	/// Note that the command has failed as a whole.
+	pub fn set_command_failed(&self) {
+		self.status.lock().unwrap().command_failed = true;
+	}
+
 	pub fn set_show_progress(&self, sp: bool) {
 		self.status.lock().unwrap().show_progress = sp;
 	}
@@ -367,6 +374,10 @@ fn compute_thread(args: InstArgs, status: StatusServer) -> anyhow::Result<()> {
 
 	func(&mut inst); // The real thing!
 
+	if inst.status.get_status().command_failed {
+		return Ok(()); // The command has already logged the error.
+	}
+
 	let fails = inst.status.get_status().blocks_failed;
 	if fails > 0 {
 		inst.status.log_info(format!(
-- 
2.43.0


From e190777b3e46ccca6cf8c2e162cd942a49bc0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:51 +0000
Subject: [PATCH 14/18] fix: Do not mistake an item name ending in EndInventory
 for the end of an inventory

---
 src/map_block/metadata.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index c8beae8..4f05616 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -10,6 +10,7 @@ use flate2::Compression;
 
 
 const END_STR: &[u8; 13] = b"EndInventory\n";
+const END_STR_LINE: &[u8; 14] = b"\nEndInventory\n";
 
 
 #[derive(Clone, Debug)]
@@ -35,12 +36,16 @@ impl NodeMetadata {
 			vars.insert(name.clone(), (val, private));
 		}
 
-		let end_finder = TwoWaySearcher::new(END_STR);
-		// This should be safe; EndInventory\n cannot appear in item metadata
-		// since newlines are escaped.
-		let end = end_finder
-			.search_in(&src.get_ref()[src.position() as usize ..])
-			.ok_or(MapBlockError::BadData)?;
+		// This should be safe; EndInventory\n cannot appear as a line of item
+		// metadata since newlines are escaped. Elsewhere within a line, it can
+		// be the end of an item name.
+		let rest = &src.get_ref()[src.position() as usize ..];
+		let end = if rest.starts_with(END_STR) {
+			0
+		} else {
+			TwoWaySearcher::new(END_STR_LINE).search_in(rest)
+				.ok_or(MapBlockError::BadData)? + 1
+		};
 
 		let mut inv = vec_with_len(end + END_STR.len());
 		src.read_exact(&mut inv)?;
-- 
2.43.0


From 2d441fb7ac44465a0a12eab2cafb70b27177d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 15/18] fix: Refuse arguments that are not valid UTF-8 instead
 of panicking

---
 src/cmd_line.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index 155adf6..5a3553a 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -148,6 +148,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 			.help("Path to world directory or map database to edit")
 		)
 		.setting(AppSettings::SubcommandRequired)
+		.global_setting(AppSettings::StrictUtf8)
 		.subcommands(app_commands);
 
 	/* Parse the arguments */
-- 
2.43.0


From 73bd48ef2d5288c11829769df90cce778f99fa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 16/18] fix: Refuse names too long to be stored, which panicked
 while being stored

---
 src/instance.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instance.rs b/src/instance.rs
index de5b436..fc4534f 100644
--- a/src/instance.rs
+++ b/src/instance.rs
@@ -265,6 +265,8 @@ fn verify_args(args: &InstArgs) -> anyhow::Result<()> {
 	fn is_valid_name(name: &str) -> bool {
 		if name == "air" || name == "ignore" {
 			true
+		} else if name.len() > u16::MAX as usize {
+			false // Names are stored with 16-bit lengths.
 		} else {
 			let delim = match name.find(':') {
 				Some(d) => d,
-- 
2.43.0


From 290fa2951fa17568a0c6ceacd3d03d2076dbadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 17/18] fix: A relative map path beginning with "file:" was
 taken for a URI, and another map edited

---
 src/instance.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instance.rs b/src/instance.rs
index fc4534f..0a013b6 100644
--- a/src/instance.rs
+++ b/src/instance.rs
@@ -1,4 +1,4 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use std::sync::mpsc;
 
@@ -324,6 +324,9 @@ fn open_map(path: PathBuf, flags: sqlite::OpenFlags)
 		}
 	};
 
+	// Do not let SQLite take a relative path like "file:world" for a URI.
+	let new_path = Path::new(".").join(new_path);
+
 	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)
 }
 
-- 
2.43.0


From 2351419d42653c63cc53a11bee6ed4fcfd946c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:49 +0000
Subject: [PATCH 18/18] fix: A map path resembling a subcommand was refused

---
 src/cmd_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index 5a3553a..5603b51 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -148,12 +148,16 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 			.help("Path to world directory or map database to edit")
 		)
 		.setting(AppSettings::SubcommandRequired)
+		// Otherwise, a map path resembling a subcommand would be refused.
+		.setting(AppSettings::AllowExternalSubcommands)
 		.global_setting(AppSettings::StrictUtf8)
 		.subcommands(app_commands);
 
 	/* Parse the arguments */
 	let matches = app.get_matches();
 	let sub_name = matches.subcommand_name().unwrap().to_string();
+	anyhow::ensure!(commands.contains_key(sub_name.as_str()),
+		"The subcommand '{}' wasn't recognized.", sub_name);
 	let sub_matches = matches.subcommand_matches(&sub_name).unwrap();
 
 	Ok(InstArgs {
-- 
2.43.0

