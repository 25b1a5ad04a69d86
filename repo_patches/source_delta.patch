From bc1d7ae7104fbd547c6de8b32a02cc6673ed8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:17 +0000
Subject: [PATCH 01/16] fix: setparam2 ignored its value argument and crashed

---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From 251db31017f1fcec3dba8aa10940ff6dfef092dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:18 +0000
Subject: [PATCH 02/16] fix: write long strings completely when serializing
 mapblocks

---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From f56e99eca8c9b70626bb109f0b523f87dee46c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:18 +0000
Subject: [PATCH 03/16] fix: fill must not touch mapblocks that are not
 generated

---
 src/commands/fill.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..108dfa3 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -44,6 +44,9 @@ fn fill(inst: &mut InstBundle) {
 		let data = inst.db.get_block(key).unwrap();
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
+		if block.flags & 0x08 != 0 {
+			continue; // Block is not generated.
+		}
 
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
-- 
2.43.0


From 4e8d4471738e218df4980be1ce2d90adf80d5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:18 +0000
Subject: [PATCH 04/16] fix: count the nodes filled by an inverted fill

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index 108dfa3..78b5970 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -58,7 +58,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				block.node_data.nodes.len() as u64 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 462861d28db0e36ea6412b0ccd44f40138f1bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:18 +0000
Subject: [PATCH 05/16] fix: overlay must not copy parts of mapblocks that are
 not generated

---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..cd49b8f 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -69,6 +69,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
+					if !is_valid_generated(&src_data) {
+						return Ok(());
+					}
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
-- 
2.43.0


From 2a29a794c71f49114f7c59b58f3a690042288f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 06/16] fix: keep private metadata private in mapblocks older
 than version 28

---
 src/map_block/metadata.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 84c5aac..9a86153 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -130,7 +130,10 @@ impl NodeMetadataListExt for NodeMetadataList {
 		if count == 0 {
 			dst.write_u8(0).unwrap();
 		} else {
-			let version = if block_version >= 28 { 2 } else { 1 };
+			// Private variables can only be stored in version 2.
+			let has_private = self.values()
+				.any(|m| m.vars.values().any(|&(_, private)| private));
+			let version = if block_version >= 28 || has_private { 2 } else { 1 };
 			dst.write_u8(version).unwrap();
 			dst.write_u16::<BigEndian>(count as u16).unwrap();
 
-- 
2.43.0


From 523575cebf2b66e2625b354e2dd320c06fe04d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 07/16] fix: deleteobjects --items missed item stacks stored as
 plain item strings

---
 src/commands/delete_objects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 47fcf88..464e033 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -52,7 +52,8 @@ fn get_item_name<'a>(data: &'a [u8]) -> &'a[u8] {
 		}
 		b""
 	} else {
-		data
+		// Plain item string; leave out the count, wear, and metadata.
+		data.split(|&c| c == b' ').next().unwrap_or(data)
 	}
 }
 
-- 
2.43.0


From db87ddbcec4655c1d07cd7610d03c113cf581d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 08/16] fix: overflow for objects with extreme positions

---
 src/commands/delete_objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 464e033..b09ad07 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -69,7 +69,7 @@ fn can_delete(
 	if let Some(a) = area {
 		const DIV_FAC: i32 = 10_000;
 		let rounded_pos = obj.f_pos
-			.map(|v| (v + DIV_FAC / 2).div_euclid(DIV_FAC));
+			.map(|v| v.saturating_add(DIV_FAC / 2).div_euclid(DIV_FAC));
 		if a.contains(rounded_pos) == invert {
 			return false; // Object not included in area.
 		}
-- 
2.43.0


From ae53c690b905eca72c931d6669fedf20f4bb9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 09/16] fix: find the end of an inventory only at the start of
 a line

---
 src/map_block/metadata.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/map_block/metadata.rs b/src/map_block/metadata.rs
index 9a86153..7caeaba 100644
--- a/src/map_block/metadata.rs
+++ b/src/map_block/metadata.rs
@@ -36,11 +36,19 @@ impl NodeMetadata {
 		}
 
 		let end_finder = TwoWaySearcher::new(END_STR);
-		// This should be safe; EndInventory\n cannot appear in item metadata
-		// since newlines are escaped.
-		let end = end_finder
-			.search_in(&src.get_ref()[src.position() as usize ..])
-			.ok_or(MapBlockError::BadData)?;
+		// This should be safe; newlines are escaped in item metadata, so a line
+		// starting with EndInventory\n is always the end. Item lines can still
+		// *end* with it.
+		let inv_src = &src.get_ref()[src.position() as usize ..];
+		let mut end = 0;
+		loop {
+			end += end_finder.search_in(&inv_src[end..])
+				.ok_or(MapBlockError::BadData)?;
+			if end == 0 || inv_src[end - 1] == b'\n' {
+				break;
+			}
+			end += 1;
+		}
 
 		let mut inv = vec_with_len(end + END_STR.len());
 		src.read_exact(&mut inv)?;
-- 
2.43.0


From 16045bf19004f06bf7a1e5f3c4aba57c2ba4f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 10/16] fix: skip mapblocks with invalid node IDs or positions
 instead of crashing

---
 src/map_block/map_block.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..e42eb56 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -115,6 +115,17 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
+		// Reject nonsense which could not be handled later on: node IDs without
+		// a name, or metadata/timers outside of the mapblock.
+		let nimap = nimap.unwrap();
+		if node_data.nodes.iter().any(|id| !nimap.0.contains_key(id))
+			|| metadata.keys().any(|&pos| pos as usize >= node_data.nodes.len())
+			|| node_timers.iter()
+				.any(|t| t.pos as usize >= node_data.nodes.len())
+		{
+			return Err(MapBlockError::BadData);
+		}
+
 		Ok(Self {
 			version,
 			flags,
@@ -125,7 +136,7 @@ impl MapBlock {
 			metadata,
 			static_objects,
 			timestamp,
-			nimap: nimap.unwrap(),
+			nimap,
 			node_timers
 		})
 	}
-- 
2.43.0


From 178127dac2cc82ec9f577ca01fa46dc1a233f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 11/16] fix: clone and overlay took database errors for missing
 mapblocks

---
 src/commands/clone.rs   |  2 +-
 src/commands/overlay.rs |  7 ++++---
 src/map_database.rs     | 11 +++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/commands/clone.rs b/src/commands/clone.rs
index 5fdb0b3..38d6496 100644
--- a/src/commands/clone.rs
+++ b/src/commands/clone.rs
@@ -35,7 +35,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.get_block_opt(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.map(|d| MapBlock::deserialize(&d));
 			cache.insert(key, block.clone());
diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index cd49b8f..2f5ff49 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -65,7 +65,7 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 			} else { // Copy part of mapblock
 				let res = || -> Result<(), MapBlockError> {
 					let dst_data = opt_unwrap_or!(
-						db.get_block(key).ok()
+						db.get_block_opt(key).unwrap()
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
@@ -122,7 +122,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.get_block_opt(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.and_then(|d| MapBlock::deserialize(&d).ok());
 			cache.insert(key, block.clone());
@@ -152,7 +152,8 @@ fn overlay_with_offset(inst: &mut InstBundle) {
 
 		let dst_pos = Vec3::from_block_key(dst_key);
 		let dst_data = opt_unwrap_or!(
-			inst.db.get_block(dst_key).ok().filter(|d| is_valid_generated(d)),
+			inst.db.get_block_opt(dst_key).unwrap()
+				.filter(|d| is_valid_generated(d)),
 			continue
 		);
 		let mut dst_block = unwrap_or!(
diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..b30e811 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -119,6 +119,17 @@ impl<'a> MapDatabase<'a> {
 		value
 	}
 
+	/// Like `get_block`, but returns `None` if the block does not exist.
+	pub fn get_block_opt(&mut self, map_key: i64)
+		-> Result<Option<Vec<u8>>, DBError>
+	{
+		match self.get_block(map_key) {
+			Ok(data) => Ok(Some(data)),
+			Err(DBError::MissingData) => Ok(None),
+			Err(e) => Err(e)
+		}
+	}
+
 	pub fn set_block(&mut self, map_key: i64, data: &[u8])
 		-> Result<(), DBError>
 	{
-- 
2.43.0


From 4df490fc81c65479f35a14dd40bf62b0cfcba6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 12/16] fix: overflow of sparse node IDs

---
 src/block_utils.rs         |  2 +-
 src/map_block/map_block.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/block_utils.rs b/src/block_utils.rs
index a8d1ca4..a2fbc56 100644
--- a/src/block_utils.rs
+++ b/src/block_utils.rs
@@ -104,7 +104,7 @@ pub fn merge_metadata(
 
 /// Culls duplicate and unused IDs from the name-ID map and node data.
 pub fn clean_name_id_map(block: &mut MapBlock) {
-	let id_count = (block.nimap.get_max_id().unwrap() + 1) as usize;
+	let id_count = block.nimap.get_max_id().unwrap() as usize + 1;
 
 	// Determine which IDs are used.
 	let mut used = vec![false; id_count];
diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index e42eb56..826a93f 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::block_utils::clean_name_id_map;
 use zstd;
 
 /*
@@ -126,7 +127,7 @@ impl MapBlock {
 			return Err(MapBlockError::BadData);
 		}
 
-		Ok(Self {
+		let mut block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -138,7 +139,15 @@ impl MapBlock {
 			timestamp,
 			nimap,
 			node_timers
-		})
+		};
+		// Some commands add new IDs above the existing ones; make sure that
+		// these cannot overflow.
+		if block.nimap.get_max_id().unwrap() as usize
+			>= block.node_data.nodes.len()
+		{
+			clean_name_id_map(&mut block);
+		}
+		Ok(block)
 	}
 
 	pub fn serialize(&self) -> Vec<u8> {
-- 
2.43.0


From f98ad266a99c5923cc856be4f2435b61b59dda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 13/16] fix: panic on command line arguments that are not valid
 UTF-8

---
 src/cmd_line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index 155adf6..c4a78ba 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -151,7 +151,11 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		.subcommands(app_commands);
 
 	/* Parse the arguments */
-	let matches = app.get_matches();
+	// clap panics if an argument is not valid UTF-8.
+	let raw_args: Vec<String> = std::env::args_os().map(|a| a.into_string())
+		.collect::<Result<_, _>>()
+		.map_err(|a| anyhow::anyhow!("Argument is not valid UTF-8: {:?}", a))?;
+	let matches = app.get_matches_from(raw_args);
 	let sub_name = matches.subcommand_name().unwrap().to_string();
 	let sub_matches = matches.subcommand_matches(&sub_name).unwrap();
 
-- 
2.43.0


From 9efd1202853eb3048de433fc1960b90aa25844f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:30 +0000
Subject: [PATCH 14/16] fix: maps named like a subcommand were refused

---
 src/cmd_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index c4a78ba..39c2551 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -148,6 +148,8 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 			.help("Path to world directory or map database to edit")
 		)
 		.setting(AppSettings::SubcommandRequired)
+		// Otherwise, clap refuses map paths which resemble a subcommand.
+		.setting(AppSettings::AllowExternalSubcommands)
 		.subcommands(app_commands);
 
 	/* Parse the arguments */
@@ -157,6 +159,8 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		.map_err(|a| anyhow::anyhow!("Argument is not valid UTF-8: {:?}", a))?;
 	let matches = app.get_matches_from(raw_args);
 	let sub_name = matches.subcommand_name().unwrap().to_string();
+	anyhow::ensure!(commands.contains_key(sub_name.as_str()),
+		"The subcommand '{}' wasn't recognized.", sub_name);
 	let sub_matches = matches.subcommand_matches(&sub_name).unwrap();
 
 	Ok(InstArgs {
-- 
2.43.0


From ad16bc2c24bb93e835e5f5419ebb8d1bc49fc5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:20 +0000
Subject: [PATCH 15/16] fix: relative paths starting with file: were taken as
 URIs

---
 src/instance.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instance.rs b/src/instance.rs
index 6a9e8e5..fe66d81 100644
--- a/src/instance.rs
+++ b/src/instance.rs
@@ -315,7 +315,9 @@ fn open_map(path: PathBuf, flags: sqlite::OpenFlags)
 		}
 	};
 
-	Ok(sqlite::Connection::open_with_flags(new_path, flags)?)
+	// Keep SQLite from taking relative paths starting with "file:" as URIs.
+	Ok(sqlite::Connection::open_with_flags(
+		PathBuf::from(".").join(new_path), flags)?)
 }
 
 
-- 
2.43.0


From 6aec9b7a93f4c02feadabef909c5b63f3deeb857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:30 +0000
Subject: [PATCH 16/16] fix: count unreadable mapblocks as done in replacenodes

---
 src/commands/replace_nodes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/commands/replace_nodes.rs b/src/commands/replace_nodes.rs
index 48653eb..79f89de 100644
--- a/src/commands/replace_nodes.rs
+++ b/src/commands/replace_nodes.rs
@@ -105,6 +105,7 @@ fn replace_nodes(inst: &mut InstBundle) {
 	let mut count = 0;
 
 	for key in keys {
+		inst.status.inc_done();
 		let data = inst.db.get_block(key).unwrap();
 
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
@@ -116,8 +117,6 @@ fn replace_nodes(inst: &mut InstBundle) {
 			let new_data = block.serialize();
 			inst.db.set_block(key, &new_data).unwrap();
 		}
-
-		inst.status.inc_done();
 	}
 
 	inst.status.end_editing();
-- 
2.43.0

