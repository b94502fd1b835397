From b7f40c1bafd68f3c71362aef38beada8029a70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:48 +0000
Subject: [PATCH 01/59] fix: character_count and cursor position after
 inserting a fragment that splits a block

The text behind the insertion point was counted as removed but not as
added again with the tail block, so stats() under-reported the document
by that many characters (and the single-formatted-block path returned a
cursor position and tail offset computed from the unsplit block).
---
 .../src/use_cases/insert_fragment_uc.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..68f6344 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -999,8 +999,10 @@ fn insert_mixed_fragment(
     // post-head-update content (same id as updated_current), so use the
     // pre-mutation char length captured at the top of the function.
     let head_delta = block_char_length(&updated_current, &store) - original_current_char_length;
+    // `head_delta` counts the split-off text of the current block as
+    // removed; that text comes back in the tail block.
     let mut total_new_chars: i64 = if merge_first || overwrite_head {
-        head_delta
+        head_delta + text_after.chars().count() as i64 + right_image_count
     } else {
         0
     };
@@ -1810,8 +1812,10 @@ fn execute_insert_fragment(
         // Track (created_block_id, plain_text) for the rope mirror.
         let mut middle_block_payload: Vec<(EntityId, String)> = Vec::new();
         let head_delta = updated_current_char_length - original_current_char_length;
+        // `head_delta` counts the split-off text of the current block as
+        // removed; that text comes back in the tail block.
         let mut total_new_chars: i64 = if merge_first || overwrite_head {
-            head_delta
+            head_delta + text_after_chars + right_image_count
         } else {
             0
         };
@@ -2194,7 +2198,7 @@ fn execute_insert_fragment(
 
                 let created_tail =
                     uow.create_block(&tail_block, frame_id, (block_idx + 1) as i32)?;
-                tail_text_len = block_char_length(&created_tail, &store);
+                tail_text_len = text_after_chars + right_image_count;
                 blocks_added = 1;
                 created_tail_id_overwrite = Some(created_tail.id);
                 write_block_state(
@@ -2267,10 +2271,9 @@ fn execute_insert_fragment(
                 uow.update_block_multi(&blocks_to_update)?;
             }
 
-            let char_delta = block_text_len - original_current_char_length;
             let mut updated_doc = document.clone();
             updated_doc.block_count += blocks_added;
-            updated_doc.character_count += char_delta;
+            updated_doc.character_count += block_text_len;
             updated_doc.updated_at = now;
             uow.update_document(&updated_doc)?;
 
@@ -2295,7 +2298,7 @@ fn execute_insert_fragment(
             );
 
             let mut running_position =
-                current_block.document_position + block_char_length(&updated_current, &store) + 1;
+                current_block.document_position + text_before_chars + left_image_count + 1;
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 let list = frag_list.to_entity();
-- 
2.43.0


From 6ade77fc7373bc4ed2aac831f47474025d22f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:50 +0000
Subject: [PATCH 02/59] fix: insert_fragment placed new blocks by document-wide
 block index

The index of the block in the whole document was used as index into the
owning frame's child_order, so blocks pasted behind a table landed at
the end of the frame.
---
 .../src/use_cases/insert_fragment_uc.rs       | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 68f6344..a13672d 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -213,6 +213,18 @@ fn collect_all_blocks_with_frame(
     Ok(())
 }
 
+/// Index in `frame.child_order` just behind `block_id`. The index of the
+/// block in the whole document is no substitute: one child_order entry
+/// (a table, a sub-frame) can stand for any number of blocks.
+fn child_order_index_after(frame: &Frame, block_id: EntityId) -> usize {
+    frame
+        .child_order
+        .iter()
+        .position(|&e| e == block_id as i64)
+        .map(|i| i + 1)
+        .unwrap_or(frame.child_order.len())
+}
+
 /// Build a mapping from block_id → (cell_frame_id, table_id) for all tables in the document.
 fn build_block_to_cell_map(
     uow: &dyn InsertFragmentUnitOfWorkTrait,
@@ -1450,7 +1462,7 @@ fn insert_mixed_fragment(
     }
 
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
     for (i, entry) in new_child_order_entries.iter().enumerate() {
         updated_frame
             .child_order
@@ -2008,7 +2020,7 @@ fn execute_insert_fragment(
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         if let Some(tid) = created_tail_id {
             new_child_ids.push(tid as i64);
@@ -2209,7 +2221,7 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2371,7 +2383,7 @@ fn execute_insert_fragment(
             );
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
-- 
2.43.0


From a8bafd48ebb19949e1eba60b7cd5704dd637a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:45 +0000
Subject: [PATCH 03/59] fix: block order after a structural edit behind
 unsynced text edits

Text edits leave Block.document_position stale while the rope is
authoritative. Splitting or inserting blocks then stored a fresh position
next to stale ones, so every reader that sorts by the stored position saw
the blocks in the wrong order (a pasted block landed before an earlier
one). Sync the stored positions before creating blocks.
---
 crates/common/src/database/rope_helpers.rs    | 25 +++++++++++++++++++
 .../src/use_cases/insert_block_uc.rs          |  2 ++
 .../src/use_cases/insert_fragment_uc.rs       |  8 ++++++
 .../src/use_cases/insert_frame_uc.rs          |  2 ++
 .../src/use_cases/insert_list_uc.rs           |  2 ++
 5 files changed, 39 insertions(+)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..e434d53 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -105,6 +105,31 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
     indexed_block_count == total_block_count
 }
 
+/// Bring the stored `Block.document_position` of every block back into
+/// sync with the rope. Text edits leave the stored values stale while
+/// [`rope_positions_match_flow`] holds; a use case that is about to
+/// create blocks (or to make the rope diverge from the flow) calls this
+/// first, so that the position it gives a new block sorts correctly
+/// against the others. No-op when the rope is not authoritative.
+pub fn sync_stored_block_positions(store: &Store) {
+    if !rope_positions_match_flow(store) {
+        return;
+    }
+    let offsets = store.block_offsets.read().unwrap();
+    let rope = store.rope.read().unwrap();
+    let mut blocks = store.blocks.write().unwrap();
+    for (marker, byte_start) in offsets.entries.iter() {
+        if let Some(id) = marker.as_block()
+            && let Some(block) = blocks.get_mut(&id)
+        {
+            let position = rope.byte_to_char(*byte_start as usize) as i64;
+            if block.document_position != position {
+                block.document_position = position;
+            }
+        }
+    }
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..3446b6e 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -68,6 +68,8 @@ fn execute_insert_block(
 
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let frame_id = *frame_ids
         .first()
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index a13672d..4db4f83 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -304,6 +304,8 @@ fn try_replace_table_cells(
     let now = chrono::Utc::now();
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     let cursor_cf = block_to_cell.get(&cursor_block.id).map(|(cf, _)| *cf);
     let cursor_cell = target_cells.iter().find(|c| c.cell_frame == cursor_cf);
     let (base_row, base_col) = cursor_cell
@@ -413,6 +415,8 @@ fn insert_table_fragment(
 
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let frame_id = *frame_ids
         .first()
@@ -804,6 +808,8 @@ fn insert_mixed_fragment(
         .ok_or_else(|| anyhow!("Document not found"))?;
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     if dto.position != dto.anchor {
         return Err(anyhow!(
             "Selection replacement is not supported. Use delete_text first."
@@ -1560,6 +1566,8 @@ fn execute_insert_fragment(
 
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     if dto.position != dto.anchor {
         return Err(anyhow!(
             "Selection replacement is not supported. Use delete_text first."
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 26ef850..a7a197a 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -100,6 +100,8 @@ fn execute_insert_frame(
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     let now = chrono::Utc::now();
 
     // Determine the parent frame from the position
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..b416d61 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -78,6 +78,8 @@ fn execute_insert_list(
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
+    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let frame_id = *frame_ids
-- 
2.43.0


From bc1d6c66cfc15e224a0564f2e9b8700bd611cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:45 +0000
Subject: [PATCH 04/59] fix: insert_list created a block without content range

The new list item was never registered in the rope's offset index, so
to_plain_text() did not show it and text typed into it was lost.
---
 .../src/use_cases/insert_list_uc.rs           | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index b416d61..7f015e2 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,7 +3,9 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -137,9 +139,24 @@ fn execute_insert_list(
     let insert_index = (block_idx + 1) as i32;
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
+    // Mirror the new block into the rope: without an entry in the offset
+    // index it would have no content range and swallow typed text.
+    if let Some(current) = blocks.get(block_idx) {
+        let content_len = block_content_via_store(current, &store).len() as u32;
+        rope_split_block(&store, current.id, content_len, created_block.id);
+    }
+
     // Update frame's child_order
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = blocks
+        .get(block_idx)
+        .and_then(|b| {
+            updated_frame
+                .child_order
+                .iter()
+                .position(|&e| e == b.id as i64)
+        })
+        .map_or(updated_frame.child_order.len(), |i| i + 1);
     updated_frame
         .child_order
         .insert(child_order_insert_pos, created_block.id as i64);
-- 
2.43.0


From 62ca3afc8d6b5e625c75dec1202bcbf1b0c1b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 05/59] fix: document statistics and positions after removing
 table rows, columns, cells or tables

character_count kept counting the text of the removed cells, and
block_count was reduced by the number of cells instead of blocks. The
stored positions of the remaining blocks were shifted by the number of
cells only.
---
 crates/common/src/database/rope_helpers.rs    | 82 +++++++++++++++++++
 .../src/use_cases/merge_table_cells_uc.rs     | 17 +++-
 .../src/use_cases/remove_table_column_uc.rs   | 17 +++-
 .../src/use_cases/remove_table_row_uc.rs      | 17 +++-
 .../src/use_cases/remove_table_uc.rs          | 10 +++
 5 files changed, 137 insertions(+), 6 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index e434d53..d3bc562 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -130,6 +130,88 @@ pub fn sync_stored_block_positions(store: &Store) {
     }
 }
 
+/// Recompute the stored `Block.document_position` of every block from the
+/// flow order (child order, table cells row-major) and the block lengths.
+/// The counterpart of [`sync_stored_block_positions`] for documents whose
+/// positions cannot be derived from the rope; no-op for the others. Use
+/// cases that edit such a document call it once their structural and text
+/// changes are in place.
+pub fn refresh_flow_block_positions(store: &Store) {
+    if rope_positions_match_flow(store) {
+        return;
+    }
+    let Some(root_frame) = store
+        .documents
+        .read()
+        .unwrap()
+        .values()
+        .next()
+        .and_then(|d| d.frames.first().copied())
+    else {
+        return;
+    };
+    let mut ordered = Vec::new();
+    collect_flow_blocks(store, root_frame, &mut ordered);
+    let mut position = 0i64;
+    for id in ordered {
+        let Some(block) = store.blocks.read().unwrap().get(&id).cloned() else {
+            continue;
+        };
+        let length = block_char_length(&block, store);
+        if block.document_position != position
+            && let Some(stored) = store.blocks.write().unwrap().get_mut(&id)
+        {
+            stored.document_position = position;
+        }
+        position += length + 1;
+    }
+}
+
+fn collect_flow_blocks(store: &Store, frame_id: EntityId, out: &mut Vec<EntityId>) {
+    let Some(frame) = store.frames.read().unwrap().get(&frame_id).cloned() else {
+        return;
+    };
+    if frame.child_order.is_empty() {
+        out.extend_from_slice(&frame.blocks);
+        return;
+    }
+    for entry in frame.child_order {
+        if entry > 0 {
+            out.push(entry as EntityId);
+            continue;
+        }
+        let child_id = (-entry) as EntityId;
+        let table_id = store
+            .frames
+            .read()
+            .unwrap()
+            .get(&child_id)
+            .and_then(|f| f.table);
+        let Some(table_id) = table_id else {
+            collect_flow_blocks(store, child_id, out);
+            continue;
+        };
+        let cell_ids = store
+            .tables
+            .read()
+            .unwrap()
+            .get(&table_id)
+            .map(|t| t.cells.clone())
+            .unwrap_or_default();
+        let mut cells: Vec<_> = {
+            let table_cells = store.table_cells.read().unwrap();
+            cell_ids
+                .iter()
+                .filter_map(|id| table_cells.get(id).cloned())
+                .collect()
+        };
+        cells.sort_by(|a, b| a.row.cmp(&b.row).then(a.column.cmp(&b.column)));
+        for cell_frame in cells.into_iter().filter_map(|c| c.cell_frame) {
+            collect_flow_blocks(store, cell_frame, out);
+        }
+    }
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 84d5215..ea03b4f 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -5,7 +5,8 @@ use crate::MergeTableCellsDto;
 use crate::MergeTableCellsResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::rope_remove_block;
+use common::database::rope_helpers::refresh_flow_block_positions;
+use common::database::rope_helpers::{block_char_length, rope_remove_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -173,6 +174,15 @@ fn execute_merge_table_cells(
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
         removed_cell_block_ids.extend(bids);
     }
+    let removed_chars: i64 = {
+        let store = uow.store();
+        let removed_blocks = uow.get_block_multi(&removed_cell_block_ids)?;
+        removed_blocks
+            .iter()
+            .flatten()
+            .map(|b| block_char_length(b, &store))
+            .sum()
+    };
     for fid in &remove_frame_ids {
         uow.remove_frame(fid)?;
     }
@@ -244,7 +254,8 @@ fn execute_merge_table_cells(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cell_count;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count -= removed_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
@@ -271,6 +282,7 @@ impl MergeTableCellsUseCase {
         let (result, snapshot) = execute_merge_table_cells(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -302,6 +314,7 @@ impl UndoRedoCommand for MergeTableCellsUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_merge_table_cells(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/remove_table_column_uc.rs b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
index 5651273..00c255c 100644
--- a/crates/document_editing/src/use_cases/remove_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
@@ -5,7 +5,8 @@ use crate::RemoveTableColumnDto;
 use crate::RemoveTableColumnResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::rope_remove_block;
+use common::database::rope_helpers::refresh_flow_block_positions;
+use common::database::rope_helpers::{block_char_length, rope_remove_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -144,6 +145,15 @@ fn execute_remove_table_column(
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
         removed_cell_block_ids.extend(bids);
     }
+    let removed_chars: i64 = {
+        let store = uow.store();
+        let removed_blocks = uow.get_block_multi(&removed_cell_block_ids)?;
+        removed_blocks
+            .iter()
+            .flatten()
+            .map(|b| block_char_length(b, &store))
+            .sum()
+    };
     for fid in &column_cell_frame_ids {
         uow.remove_frame(fid)?;
     }
@@ -226,7 +236,8 @@ fn execute_remove_table_column(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count -= removed_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
@@ -253,6 +264,7 @@ impl RemoveTableColumnUseCase {
         let (result, snapshot) = execute_remove_table_column(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -284,6 +296,7 @@ impl UndoRedoCommand for RemoveTableColumnUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_remove_table_column(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/remove_table_row_uc.rs b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
index 6852055..bd98530 100644
--- a/crates/document_editing/src/use_cases/remove_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
@@ -5,7 +5,8 @@ use crate::RemoveTableRowDto;
 use crate::RemoveTableRowResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::rope_remove_block;
+use common::database::rope_helpers::refresh_flow_block_positions;
+use common::database::rope_helpers::{block_char_length, rope_remove_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -142,6 +143,15 @@ fn execute_remove_table_row(
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
         removed_cell_block_ids.extend(bids);
     }
+    let removed_chars: i64 = {
+        let store = uow.store();
+        let removed_blocks = uow.get_block_multi(&removed_cell_block_ids)?;
+        removed_blocks
+            .iter()
+            .flatten()
+            .map(|b| block_char_length(b, &store))
+            .sum()
+    };
     for fid in &row_cell_frame_ids {
         uow.remove_frame(fid)?;
     }
@@ -219,7 +229,8 @@ fn execute_remove_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count -= removed_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
@@ -246,6 +257,7 @@ impl RemoveTableRowUseCase {
         let (result, snapshot) = execute_remove_table_row(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -277,6 +289,7 @@ impl UndoRedoCommand for RemoveTableRowUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_remove_table_row(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 0abf111..be7fe22 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -1,6 +1,9 @@
 use crate::RemoveTableDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::{
+    block_char_length, refresh_flow_block_positions, sync_stored_block_positions,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -82,6 +85,7 @@ fn execute_remove_table(
     // remember each cell-block id so we can detach them from the
     // global rope before the entity cascade below.
     let mut total_cell_blocks: i64 = 0;
+    let mut total_cell_chars: i64 = 0;
     let mut min_cell_position: Option<i64> = None;
     let mut cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &cell_frame_ids {
@@ -90,6 +94,7 @@ fn execute_remove_table(
             let blocks_opt = uow.get_block_multi(&block_ids)?;
             for block in blocks_opt.into_iter().flatten() {
                 total_cell_blocks += 1;
+                total_cell_chars += block_char_length(&block, &uow.store());
                 cell_block_ids.push(block.id);
                 match min_cell_position {
                     None => min_cell_position = Some(block.document_position),
@@ -182,6 +187,7 @@ fn execute_remove_table(
     // Update Document stats
     let mut updated_doc = document.clone();
     updated_doc.block_count -= total_cell_blocks;
+    updated_doc.character_count -= total_cell_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
@@ -205,6 +211,8 @@ impl RemoveTableUseCase {
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
 
+        sync_stored_block_positions(&uow.store());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
@@ -236,6 +244,8 @@ impl UndoRedoCommand for RemoveTableUseCase {
         uow.begin_transaction()?;
         let snapshot = execute_remove_table(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        sync_stored_block_positions(&uow.store());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
-- 
2.43.0


From 81311338228d88c81f55db2262aed85de458fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:01 +0000
Subject: [PATCH 06/59] fix: block positions in documents with tables after
 edits

Where positions cannot be derived from the rope, the stored positions of
later blocks were left stale by deletes, formatted inserts, row/column
inserts, cell splits and by the undo of a plain insert. delete_text in
addition recomputed positions without the cell blocks, so that deleting
text behind a table removed nothing (or the wrong text) while the
character count was reduced.
---
 .../src/use_cases/delete_text_uc.rs           | 20 ++++++++-----------
 .../src/use_cases/insert_block_uc.rs          |  3 +++
 .../src/use_cases/insert_formatted_text_uc.rs |  4 ++++
 .../src/use_cases/insert_fragment_uc.rs       |  6 +++++-
 .../src/use_cases/insert_list_uc.rs           |  3 +++
 .../src/use_cases/insert_table_column_uc.rs   |  3 +++
 .../src/use_cases/insert_table_row_uc.rs      |  3 +++
 .../src/use_cases/insert_text_uc.rs           |  4 ++++
 .../src/use_cases/split_table_cell_uc.rs      |  3 +++
 9 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..086c5b2 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -5,6 +5,7 @@ use crate::DeleteTextDto;
 use crate::DeleteTextResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{block_char_length, block_content_via_store};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -181,20 +182,13 @@ fn execute_delete(
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
-    // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
-    let root_frame = uow
-        .get_frame(&frame_id)?
-        .ok_or_else(|| anyhow!("Root frame not found"))?;
+    // Refresh stored block positions from the flow order + text length,
+    // since insert_text's fast path leaves them stale. Table-cell blocks
+    // take part like any other: they occupy flow positions too.
     let mut running: i64 = 0;
     let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
-        if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
+    for id in &all_block_ids {
+        if let Some(b) = blocks.iter_mut().find(|b| b.id == *id) {
             if b.document_position != running {
                 b.document_position = running;
                 blocks_to_refresh.push(b.clone());
@@ -934,6 +928,7 @@ impl DeleteTextUseCase {
         self.last_merge_time = Some(Instant::now());
         self.is_single_char_origin = (dto.position - dto.anchor).abs() == 1;
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -965,6 +960,7 @@ impl UndoRedoCommand for DeleteTextUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_delete(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index 3446b6e..efbe95a 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertBlockDto;
 use crate::InsertBlockResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{block_content_via_store, rope_split_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -281,6 +282,7 @@ impl InsertBlockUseCase {
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -312,6 +314,7 @@ impl UndoRedoCommand for InsertBlockUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_block(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..b2306e9 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertFormattedTextDto;
 use crate::InsertFormattedTextResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{
     block_char_length, block_content_via_store, rope_delete_in_block, rope_insert_in_block,
 };
@@ -441,6 +442,7 @@ impl InsertFormattedTextUseCase {
         self.undo_data = Some(undo_data);
         self.last_dto = Some(dto.clone());
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -497,6 +499,7 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
             }
         }
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         self.undo_data = Some(undo_data);
         Ok(())
@@ -520,6 +523,7 @@ impl UndoRedoCommand for InsertFormattedTextUseCase {
         };
         self.undo_data = Some(undo_data);
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 4db4f83..dfbcaf8 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -6,6 +6,7 @@ use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{
     block_char_length, rope_append_block, rope_delete_in_block, rope_insert_block_at,
     rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_split_block,
@@ -2229,7 +2230,8 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2501,6 +2503,7 @@ impl InsertFragmentUseCase {
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -2532,6 +2535,7 @@ impl UndoRedoCommand for InsertFragmentUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_fragment(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 7f015e2..e5a179f 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{
     block_char_length, block_content_via_store, rope_split_block,
 };
@@ -209,6 +210,7 @@ impl InsertListUseCase {
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -240,6 +242,7 @@ impl UndoRedoCommand for InsertListUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_list(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index dc92612..3009810 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -6,6 +6,7 @@ use crate::InsertTableColumnDto;
 use crate::InsertTableColumnResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{rope_insert_block_at, top_level_frame_end_byte};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -236,6 +237,7 @@ impl InsertTableColumnUseCase {
         let (result, snapshot) = execute_insert_table_column(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -265,6 +267,7 @@ impl UndoRedoCommand for InsertTableColumnUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_table_column(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 88a858c..095b84f 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -6,6 +6,7 @@ use crate::InsertTableRowDto;
 use crate::InsertTableRowResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{rope_insert_block_at, top_level_frame_end_byte};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -234,6 +235,7 @@ impl InsertTableRowUseCase {
         let (result, snapshot) = execute_insert_table_row(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -263,6 +265,7 @@ impl UndoRedoCommand for InsertTableRowUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_table_row(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..496a659 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertTextDto;
 use crate::InsertTextResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{
     block_char_length, block_content_via_store, find_block_at_char_position, rope_delete_in_block,
     rope_insert_in_block,
@@ -512,6 +513,7 @@ impl InsertTextUseCase {
         self.last_merge_time = Some(Instant::now());
         self.was_selection_replacement = has_selection;
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -565,6 +567,7 @@ impl UndoRedoCommand for InsertTextUseCase {
             }
         }
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
@@ -585,6 +588,7 @@ impl UndoRedoCommand for InsertTextUseCase {
             execute_insert_simple(&mut uow, &dto)?
         };
         self.undo_data = Some(undo);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index e13859a..c5fd628 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -6,6 +6,7 @@ use crate::SplitTableCellDto;
 use crate::SplitTableCellResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{rope_insert_block_at, top_level_frame_end_byte};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -281,6 +282,7 @@ impl SplitTableCellUseCase {
         let (result, snapshot) = execute_split_table_cell(&mut uow, dto)?;
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -310,6 +312,7 @@ impl UndoRedoCommand for SplitTableCellUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_split_table_cell(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
-- 
2.43.0


From 231c195d54b7a0f1b96537c602ab1c120ababc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 07/59] fix: nested frames had no content range and shifted
 later positions

insert_frame did not register the block of a nested frame in the rope, so
text typed into it was lost, and put the frame at a document-wide block
index of the parent's child_order. Positions of later blocks were not
updated either; insert_image left them stale in such documents.
---
 .../src/use_cases/insert_frame_uc.rs          | 54 ++++++++++++-------
 .../src/use_cases/insert_image_uc.rs          |  3 ++
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index a7a197a..7f2e48b 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -2,8 +2,10 @@ use crate::InsertFrameDto;
 use crate::InsertFrameResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
-use common::database::rope_helpers::rope_append_empty_block;
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, refresh_flow_block_positions,
+    rope_append_empty_block, rope_split_block, sync_stored_block_positions,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -40,12 +42,12 @@ pub struct InsertFrameUseCase {
 
 /// Find which frame contains the given document position by walking
 /// frames -> blocks and checking document_position ranges.
-/// Returns the frame and the block index within it closest to position.
+/// Returns the frame and the block within it closest to position.
 fn find_frame_at_position(
     uow: &dyn InsertFrameUnitOfWorkTrait,
     frame_ids: &[EntityId],
     position: i64,
-) -> Result<Option<(Frame, usize)>> {
+) -> Result<Option<(Frame, Block)>> {
     let store = uow.store();
     for frame_id in frame_ids {
         let frame = match uow.get_frame(frame_id)? {
@@ -73,7 +75,7 @@ fn find_frame_at_position(
                     }
                     block_idx = i;
                 }
-                return Ok(Some((frame, block_idx)));
+                return Ok(Some((frame, blocks.swap_remove(block_idx))));
             }
         }
     }
@@ -100,24 +102,29 @@ fn execute_insert_frame(
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
-    common::database::rope_helpers::sync_stored_block_positions(&uow.store());
+    sync_stored_block_positions(&uow.store());
 
     let now = chrono::Utc::now();
 
     // Determine the parent frame from the position
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
 
-    let (parent_frame_id, child_order_insert_idx) =
+    let (parent_frame_id, child_order_insert_idx, previous_block) =
         match find_frame_at_position(&**uow, &frame_ids, dto.position)? {
-            Some((parent_frame, block_idx)) => {
+            Some((parent_frame, block)) => {
                 // Insert the new sub-frame into the parent's child_order
-                // after the block at block_idx
-                let insert_idx = (block_idx + 1).min(parent_frame.child_order.len());
-                (Some(parent_frame.id), insert_idx)
+                // right after the block at the position
+                let insert_idx = parent_frame
+                    .child_order
+                    .iter()
+                    .position(|&e| e == block.id as i64)
+                    .map(|i| i + 1)
+                    .unwrap_or(parent_frame.child_order.len());
+                (Some(parent_frame.id), insert_idx, Some(block))
             }
             None => {
                 // Position doesn't fall in any frame — append as top-level
-                (None, 0)
+                (None, 0, None)
             }
         };
 
@@ -192,14 +199,17 @@ fn execute_insert_frame(
     // registered in block_offsets so subsequent edits can find it.
     // Frame.byte_range is recomputed centrally in Transaction::commit.
     //
-    // Nested (parent=Some) frames are NOT mirrored here — their
-    // position depends on parent.child_order interleaving with sibling
-    // blocks/tables/frames. Sub-frame insertion within a populated
-    // parent is currently a follow-up; this matches the pre-existing
-    // behavior where insert_frame_uc only populated the entity tree.
-    // No-op under default backend.
-    if parent_frame_id.is_none() {
-        rope_append_empty_block(&uow.store(), created_block.id);
+    // A nested frame's block follows, in the rope as in the flow, the
+    // block it was inserted after.
+    let store = uow.store();
+    match &previous_block {
+        Some(previous) => {
+            let end = block_content_via_store(previous, &store).len() as u32;
+            rope_split_block(&store, previous.id, end, created_block.id);
+        }
+        None => {
+            rope_append_empty_block(&store, created_block.id);
+        }
     }
 
     Ok((
@@ -227,6 +237,8 @@ impl InsertFrameUseCase {
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
 
+        sync_stored_block_positions(&uow.store());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -258,6 +270,8 @@ impl UndoRedoCommand for InsertFrameUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_frame(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        sync_stored_block_positions(&uow.store());
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
diff --git a/crates/document_editing/src/use_cases/insert_image_uc.rs b/crates/document_editing/src/use_cases/insert_image_uc.rs
index 9568420..d565d01 100644
--- a/crates/document_editing/src/use_cases/insert_image_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_image_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertImageDto;
 use crate::InsertImageResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{block_content_via_store, rope_insert_in_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -212,6 +213,7 @@ impl InsertImageUseCase {
         self.undo_snapshot = Some(snapshot);
         self.last_dto = Some(dto.clone());
 
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(result)
     }
@@ -243,6 +245,7 @@ impl UndoRedoCommand for InsertImageUseCase {
         uow.begin_transaction()?;
         let (_, snapshot) = execute_insert_image(&mut uow, &dto)?;
         self.undo_snapshot = Some(snapshot);
+        refresh_flow_block_positions(&uow.store());
         uow.commit()?;
         Ok(())
     }
-- 
2.43.0


From f094075db643b6befd7a2e2b701e62eb9d06e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 08/59] fix: replacing a block's content removed the boundary
 before an empty last block

---
 crates/common/src/database/rope_helpers.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index d3bc562..06728a4 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -944,22 +944,22 @@ pub fn rope_remove_block(store: &Store, block_id: EntityId) {
 pub fn rope_replace_block_content(store: &Store, block_id: EntityId, new_text: &str) {
     let (block_byte_start, content_bytes) = {
         let offsets = store.block_offsets.read().unwrap();
-        let Some((start, end)) = offsets.range_of_block(block_id) else {
+        let Some((start, end, has_successor)) =
+            offsets.range_with_successor(OffsetMarker::Block(block_id))
+        else {
             return;
         };
-        let total = offsets.total_bytes();
-        // `range_of` extends to the next entry's `byte_start` (or to
-        // `total_bytes`). If there's a following entry, the byte at
-        // `end - 1` is the inter-block boundary `\n` that belongs to
-        // the boundary between this block and the next, not to this
+        // `end` extends to the next entry's `byte_start` (or to
+        // `total_bytes`). If there's a following entry — even an empty
+        // last one, which starts at `total_bytes` — the byte at
+        // `end - 1` is the inter-block boundary `\n`, not part of this
         // block's content.
-        let has_trailing_boundary = end < total;
-        let content_bytes = if has_trailing_boundary {
-            end - start - 1
+        let content_end = if has_successor && end > start {
+            end - 1
         } else {
-            end - start
+            end
         };
-        (start, content_bytes)
+        (start, content_end - start)
     };
 
     let new_bytes = new_text.len() as u32;
-- 
2.43.0


From a583e361b4d22db0ab4e25947ee43e9c3d730772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:14 +0000
Subject: [PATCH 09/59] fix: inserting or removing a table anchor after an
 empty last block moved that block

---
 crates/common/src/database/rope_helpers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 06728a4..dd6e1e9 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -741,12 +741,13 @@ pub fn rope_insert_table_anchor(
     } else {
         // After target which is last: "\n\u{FFFC}" appended.
         // TableAnchor's byte_start sits 1 past the original
-        // total (after the new `\n`).
+        // total (after the new `\n`). Nothing follows, and an empty
+        // target, whose own entry sits at the insertion point, stays.
         (
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            insert_pos + 1,
             4i32,
         )
     };
@@ -854,11 +855,13 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         let mut offsets = store.block_offsets.write().unwrap();
         offsets.remove_at(anchor_idx);
     }
+    // Entries strictly past the removed bytes: an empty predecessor that
+    // starts at `remove_start` keeps its place.
     store
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        .shift_after(remove_end, -4);
 }
 
 /// Remove a registered block from the rope: drops its content bytes
-- 
2.43.0


From 5c961671f55be944b32d7a4028d4bbcb23910d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:43 +0000
Subject: [PATCH 10/59] fix: deleting across table cells left removed blocks
 and tables in the text rope

---
 .../document_editing/src/use_cases/delete_text_uc.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 086c5b2..dd5538b 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -6,7 +6,9 @@ use crate::DeleteTextResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::refresh_flow_block_positions;
-use common::database::rope_helpers::{block_char_length, block_content_via_store};
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_remove_block, rope_remove_table_anchor,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -285,6 +287,7 @@ fn execute_delete(
             let extra_block_ids: Vec<EntityId> = cell_blocks[1..].iter().map(|b| b.id).collect();
             for &eid in &extra_block_ids {
                 drop_block_runs_and_images(uow.as_ref(), eid);
+                rope_remove_block(&uow.store(), eid);
                 uow.remove_block(&eid)?;
             }
 
@@ -325,6 +328,11 @@ fn execute_delete(
             if start < table_min_pos || end > table_max_pos {
                 for c in &cells {
                     if let Some(cf_id) = c.cell_frame {
+                        for bid in
+                            uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?
+                        {
+                            rope_remove_block(&uow.store(), bid);
+                        }
                         uow.remove_frame(&cf_id)?;
                     }
                     uow.remove_table_cell(&c.id)?;
@@ -345,6 +353,7 @@ fn execute_delete(
                     }
                 }
 
+                rope_remove_table_anchor(&uow.store(), tid);
                 uow.remove_table(&tid)?;
                 tables_to_remove.push(tid);
             }
@@ -425,6 +434,7 @@ fn execute_delete(
             } else {
                 total_chars_removed += block_char_length(block, &store);
                 drop_block_runs_and_images(uow.as_ref(), block.id);
+                rope_remove_block(&uow.store(), block.id);
                 uow.remove_block(&block.id)?;
                 non_cell_blocks_to_remove.push(block.id);
             }
-- 
2.43.0


From 937c232224dbe0e20c164a381f564f0312ab93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 11/59] fix: a caret at the end of a block was treated as being
 in the next block

---
 crates/public_api/src/cursor.rs | 119 ++++++++++++--------------------
 1 file changed, 44 insertions(+), 75 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..3181dfc 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -74,6 +74,28 @@ impl Clone for TextCursor {
     }
 }
 
+/// The block a caret at `pos` is in. The separator position after a non-empty
+/// block is looked up as the next block; a caret there is visually at the end
+/// of the previous one.
+fn caret_block_info(
+    inner: &TextDocumentInner,
+    pos: usize,
+) -> Result<frontend::document_inspection::BlockInfoDto> {
+    let at = |position: usize| {
+        document_inspection_commands::get_block_at_position(
+            &inner.ctx,
+            &frontend::document_inspection::GetBlockAtPositionDto {
+                position: to_i64(position),
+            },
+        )
+    };
+    let info = at(pos)?;
+    if to_usize(info.block_start) > pos && pos > 0 {
+        return at(pos - 1);
+    }
+    Ok(info)
+}
+
 impl TextCursor {
     // ── Helpers (called while doc lock is NOT held) ──────────
 
@@ -193,10 +215,7 @@ impl TextCursor {
     pub fn at_block_start(&self) -> bool {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        if let Ok(info) = document_inspection_commands::get_block_at_position(&inner.ctx, &dto) {
+        if let Ok(info) = caret_block_info(&inner, pos) {
             pos == to_usize(info.block_start)
         } else {
             false
@@ -207,10 +226,7 @@ impl TextCursor {
     pub fn at_block_end(&self) -> bool {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        if let Ok(info) = document_inspection_commands::get_block_at_position(&inner.ctx, &dto) {
+        if let Ok(info) = caret_block_info(&inner, pos) {
             pos == to_usize(info.block_start) + to_usize(info.block_length)
         } else {
             false
@@ -244,10 +260,7 @@ impl TextCursor {
     pub fn block_number(&self) -> usize {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+        caret_block_info(&inner, pos)
             .map(|info| to_usize(info.block_number))
             .unwrap_or(0)
     }
@@ -256,10 +269,7 @@ impl TextCursor {
     pub fn position_in_block(&self) -> usize {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+        caret_block_info(&inner, pos)
             .map(|info| pos.saturating_sub(to_usize(info.block_start)))
             .unwrap_or(0)
     }
@@ -359,12 +369,7 @@ impl TextCursor {
             SelectionType::BlockUnderCursor | SelectionType::LineUnderCursor => {
                 let pos = self.position();
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                if let Ok(info) =
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                {
+                if let Ok(info) = caret_block_info(&inner, pos) {
                     let start = to_usize(info.block_start);
                     let end = start + to_usize(info.block_length);
                     drop(inner);
@@ -1646,11 +1651,7 @@ impl TextCursor {
     pub fn current_list(&self) -> Option<crate::TextList> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info =
-            document_inspection_commands::get_block_at_position(&inner.ctx, &dto).ok()?;
+        let block_info = caret_block_info(&inner, pos).ok()?;
         let block = crate::text_block::TextBlock {
             doc: self.doc.clone(),
             block_id: block_info.block_id as usize,
@@ -1769,10 +1770,7 @@ impl TextCursor {
     pub fn add_current_block_to_list(&self, list_id: usize) -> Result<()> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = caret_block_info(&inner, pos)?;
         drop(inner);
         self.add_block_to_list(block_info.block_id as usize, list_id)
     }
@@ -1808,10 +1806,7 @@ impl TextCursor {
     pub fn remove_current_block_from_list(&self) -> Result<()> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = caret_block_info(&inner, pos)?;
         drop(inner);
         self.remove_block_from_list(block_info.block_id as usize)
     }
@@ -1838,10 +1833,7 @@ impl TextCursor {
         let inner = self.doc.lock();
 
         // Locate the block containing the cursor.
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = caret_block_info(&inner, pos)?;
         let block_id = block_info.block_id as u64;
         let mut block_dto = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
             .ok_or_else(|| anyhow::anyhow!("block not found at position"))?;
@@ -1893,10 +1885,7 @@ impl TextCursor {
     pub fn block_format(&self) -> Result<BlockFormat> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = caret_block_info(&inner, pos)?;
         let block_id = block_info.block_id as u64;
         let block = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
             .ok_or_else(|| anyhow::anyhow!("block not found"))?;
@@ -2098,28 +2087,19 @@ impl TextCursor {
             }
             MoveOperation::StartOfBlock | MoveOperation::StartOfLine => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                caret_block_info(&inner, pos)
                     .map(|info| to_usize(info.block_start))
                     .unwrap_or(pos)
             }
             MoveOperation::EndOfBlock | MoveOperation::EndOfLine => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                caret_block_info(&inner, pos)
                     .map(|info| to_usize(info.block_start) + to_usize(info.block_length))
                     .unwrap_or(pos)
             }
             MoveOperation::NextBlock => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                caret_block_info(&inner, pos)
                     .map(|info| {
                         // Move past current block + 1 (block separator)
                         to_usize(info.block_start) + to_usize(info.block_length) + 1
@@ -2128,19 +2108,12 @@ impl TextCursor {
             }
             MoveOperation::PreviousBlock => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                let block_start =
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                        .map(|info| to_usize(info.block_start))
-                        .unwrap_or(pos);
-                if block_start >= 2 {
-                    // Skip past the block separator (which maps to the current block)
-                    let prev_dto = frontend::document_inspection::GetBlockAtPositionDto {
-                        position: to_i64(block_start - 2),
-                    };
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &prev_dto)
+                let block_start = caret_block_info(&inner, pos)
+                    .map(|info| to_usize(info.block_start))
+                    .unwrap_or(pos);
+                if block_start > 0 {
+                    // The separator before this block ends the previous one
+                    caret_block_info(&inner, block_start - 1)
                         .map(|info| to_usize(info.block_start))
                         .unwrap_or(0)
                 } else {
@@ -2400,14 +2373,10 @@ impl TextCursor {
     fn find_word_boundaries(&self, pos: usize) -> (usize, usize) {
         let inner = self.doc.lock();
         // Get block info so we can fetch the full block text
-        let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
+        let block_info = match caret_block_info(&inner, pos) {
+            Ok(info) => info,
+            Err(_) => return (pos, pos),
         };
-        let block_info =
-            match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
-                Ok(info) => info,
-                Err(_) => return (pos, pos),
-            };
 
         let block_start = to_usize(block_info.block_start);
         let block_length = to_usize(block_info.block_length);
-- 
2.43.0


From 81bc58017c8b95ce21c410969be460e794b954d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 12/59] fix: redo of typing merged into a replaced selection
 did not replace the selection

---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index 496a659..4247dce 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -646,8 +646,9 @@ impl UndoRedoCommand for InsertTextUseCase {
         };
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
+            // position and anchor stay: redo replaces the selection that the
+            // first insertion replaced
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From a0cac1f826df171f55cad457a4df22f88098aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 13/59] fix: formatting after text edits used stale block
 positions and hit other blocks

---
 crates/common/src/database/rope_helpers.rs                 | 5 +++--
 .../src/use_cases/merge_text_format_uc.rs                  | 7 ++++++-
 .../src/use_cases/set_block_format_uc.rs                   | 5 ++++-
 .../src/use_cases/set_text_format_uc.rs                    | 7 ++++++-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index dd6e1e9..aa8e645 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -110,9 +110,10 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
 /// [`rope_positions_match_flow`] holds; a use case that is about to
 /// create blocks (or to make the rope diverge from the flow) calls this
 /// first, so that the position it gives a new block sorts correctly
-/// against the others. No-op when the rope is not authoritative.
+/// against the others. No-op when the rope is not authoritative, as in any
+/// document with tables.
 pub fn sync_stored_block_positions(store: &Store) {
-    if !rope_positions_match_flow(store) {
+    if !rope_positions_match_flow(store) || !store.tables.read().unwrap().is_empty() {
         return;
     }
     let offsets = store.block_offsets.read().unwrap();
diff --git a/crates/document_formatting/src/use_cases/merge_text_format_uc.rs b/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
index ce8672c..25c526e 100644
--- a/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
@@ -1,7 +1,9 @@
 use crate::MergeTextFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::{block_char_length, block_char_to_byte_in_block};
+use common::database::rope_helpers::{
+    block_char_length, block_char_to_byte_in_block, sync_stored_block_positions,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -126,6 +128,9 @@ fn execute_merge_text_format(
         all_block_ids.extend(block_ids);
     }
 
+    // Text edits leave the stored block positions stale.
+    sync_stored_block_positions(&uow.store());
+
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
     blocks.sort_by_key(|b| b.document_position);
diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index 207a689..f74fbab 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -1,7 +1,7 @@
 use crate::SetBlockFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{block_char_length, sync_stored_block_positions};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -63,6 +63,9 @@ fn execute_set_block_format(
         .get_document(&doc_id)?
         .ok_or_else(|| anyhow!("Document not found"))?;
 
+    // Text edits leave the stored block positions stale.
+    sync_stored_block_positions(&uow.store());
+
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
diff --git a/crates/document_formatting/src/use_cases/set_text_format_uc.rs b/crates/document_formatting/src/use_cases/set_text_format_uc.rs
index 1295fea..7c81445 100644
--- a/crates/document_formatting/src/use_cases/set_text_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_text_format_uc.rs
@@ -1,7 +1,9 @@
 use crate::SetTextFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::{block_char_length, block_char_to_byte_in_block};
+use common::database::rope_helpers::{
+    block_char_length, block_char_to_byte_in_block, sync_stored_block_positions,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -198,6 +200,9 @@ fn execute_set_text_format(
         all_block_ids.extend(block_ids);
     }
 
+    // Text edits leave the stored block positions stale.
+    sync_stored_block_positions(&uow.store());
+
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
     blocks.sort_by_key(|b| b.document_position);
-- 
2.43.0


From 03a393615593aa8aad113cc413559b5e49e7f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 14/59] fix: setting a block format with the caret at the end
 of a block did nothing

---
 .../src/use_cases/set_block_format_uc.rs      | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index f74fbab..d72d02e 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -1,7 +1,7 @@
 use crate::SetBlockFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::{block_char_length, sync_stored_block_positions};
+use common::database::rope_helpers::sync_stored_block_positions;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -88,22 +88,17 @@ fn execute_set_block_format(
     let range_start = std::cmp::min(dto.position, dto.anchor);
     let range_end = std::cmp::max(dto.position, dto.anchor);
 
-    // Find blocks that overlap the range
+    // The range reaches from the block its start is in to the last block that
+    // begins inside it. A caret behind the last character of a block is still
+    // in that block.
+    let first = blocks
+        .iter()
+        .rposition(|b| b.document_position <= range_start)
+        .unwrap_or(0);
+
     let mut blocks_to_update: Vec<Block> = Vec::new();
-    let store = uow.store();
-    for block in &blocks {
-        let block_start = block.document_position;
-        let block_end = block_start + block_char_length(block, &store);
-
-        // Block overlaps the range if its text interval [block_start, block_end)
-        // intersects [range_start, range_end].  Empty blocks (text_length == 0)
-        // are included when their position falls inside the range.
-        let overlaps = if block_char_length(block, &store) > 0 {
-            block_start <= range_end && block_end > range_start
-        } else {
-            block_start >= range_start && block_start <= range_end
-        };
-        if overlaps {
+    for (i, block) in blocks.iter().enumerate() {
+        if i >= first && block.document_position <= range_end {
             let mut updated = block.clone();
             if let Some(ref a) = dto.alignment {
                 updated.fmt_alignment = Some(alignment_to_entity(a));
-- 
2.43.0


From 647470c858005385777c9a26a986dc0318c20b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 15/59] fix: create_list ignored blocks in sub-frames and table
 cells

---
 .../src/use_cases/create_list_uc.rs               | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index 53f7842..65bc054 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -2,7 +2,7 @@ use crate::CreateListDto;
 use crate::CreateListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{block_char_length, sync_stored_block_positions};
 use common::direct_access::block::block_repository::BlockRelationshipField;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -73,17 +73,20 @@ fn execute_create_list(
         .get_document(&doc_id)?
         .ok_or_else(|| anyhow!("Document not found"))?;
 
+    // Text edits leave the stored block positions stale.
+    sync_stored_block_positions(&uow.store());
+
     // Snapshot for undo before mutation
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
 
-    // Get block IDs from frame
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
+    // Get block IDs from all frames: the selection may be in a sub-frame or a table cell
+    let mut block_ids = Vec::new();
+    for frame_id in &frame_ids {
+        block_ids.extend(uow.get_frame_relationship(frame_id, &FrameRelationshipField::Blocks)?);
+    }
 
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
-- 
2.43.0


From dad3b7f9270fa8bcd789fa0ac4bbeecc95767ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 16/59] fix: splitting a block in a table cell moved its rest
 to the end of the document

---
 .../src/use_cases/insert_block_uc.rs          | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index efbe95a..fe534a4 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -174,31 +174,16 @@ fn execute_insert_block(
         fmt_code_language: current_block.fmt_code_language.clone(),
     };
 
-    fn find_owner_frame(
-        uow: &dyn InsertBlockUnitOfWorkTrait,
-        fid: &EntityId,
-        target_block_id: EntityId,
-    ) -> Result<Option<EntityId>> {
-        let f = uow
-            .get_frame(fid)?
-            .ok_or_else(|| anyhow!("Frame not found"))?;
-        for &entry in &f.child_order {
-            if entry > 0 && entry as EntityId == target_block_id {
-                return Ok(Some(*fid));
-            } else if entry < 0 {
-                let sub = (-entry) as EntityId;
-                if let Some(owner) = find_owner_frame(uow, &sub, target_block_id)? {
-                    return Ok(Some(owner));
-                }
-            }
-        }
+    // The owner may be a sub-frame or a table cell's frame; the latter is not
+    // reachable through `child_order`, so ask every frame for its blocks.
+    let mut owner_frame_id = frame_id;
+    for fid in &frame_ids {
         let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-        if block_ids.contains(&target_block_id) {
-            return Ok(Some(*fid));
+        if block_ids.contains(&current_block.id) {
+            owner_frame_id = *fid;
+            break;
         }
-        Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
-- 
2.43.0


From 3ab03b1aefd92c3ccd1d665e9982f96f9cca36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 17/59] fix: insert_list in a table cell or sub-frame put the
 item at the end of the document

---
 .../src/use_cases/insert_list_uc.rs           | 46 +++++++++++++------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index e5a179f..6a6c3ac 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -85,25 +85,40 @@ fn execute_insert_list(
 
     // Get frames
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
-        .first()
-        .ok_or_else(|| anyhow!("Document has no frames"))?;
+    // Find the frame that owns the block at the position: the root frame, a
+    // sub-frame or a table cell's frame.
+    let mut owners: Vec<(EntityId, EntityId)> = Vec::new();
+    for fid in &frame_ids {
+        for bid in uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)? {
+            owners.push((bid, *fid));
+        }
+    }
+    let all_ids: Vec<EntityId> = owners.iter().map(|(bid, _)| *bid).collect();
+    let blocks_opt = uow.get_block_multi(&all_ids)?;
+    let mut all_blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+    all_blocks.sort_by_key(|b| b.document_position);
+    let (current_block, _, _) = find_block_at_position(&all_blocks, position, &uow.store())?;
+    let frame_id = owners
+        .iter()
+        .find(|(bid, _)| *bid == current_block.id)
+        .map(|(_, fid)| *fid)
+        .ok_or_else(|| anyhow!("Block has no frame"))?;
 
     let frame = uow
         .get_frame(&frame_id)?
         .ok_or_else(|| anyhow!("Frame not found"))?;
 
-    // Get block IDs from frame
+    // The blocks of that frame, and the index to insert at
     let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-
-    // Get all blocks
-    let blocks_opt = uow.get_block_multi(&block_ids)?;
-    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
-
-    // Find block at position to determine insert index
-    let (_current_block, block_idx, _offset) =
-        find_block_at_position(&blocks, position, &uow.store())?;
+    let blocks: Vec<Block> = all_blocks
+        .iter()
+        .filter(|b| block_ids.contains(&b.id))
+        .cloned()
+        .collect();
+    let block_idx = blocks
+        .iter()
+        .position(|b| b.id == current_block.id)
+        .unwrap_or(0);
 
     let now = chrono::Utc::now();
 
@@ -168,7 +183,10 @@ fn execute_insert_list(
 
     // Update subsequent blocks' document_position (those after the new block)
     let mut blocks_to_update: Vec<Block> = Vec::new();
-    for b in &blocks[(block_idx + 1)..] {
+    for b in all_blocks
+        .iter()
+        .filter(|b| b.document_position >= new_block_position)
+    {
         let mut ub = b.clone();
         ub.document_position += 1; // block separator
         ub.updated_at = now;
-- 
2.43.0


From fd0b696d8506d8e8e283ab8805c227bbc0d907a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 18/59] fix: case-insensitive search reported shifted positions
 behind a character that lowercases to two

---
 .../src/use_cases/search_helpers.rs           | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 4828477..cc5e5e4 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -63,6 +63,23 @@ pub fn build_word_boundary_set(text: &str) -> HashSet<usize> {
     set
 }
 
+/// For every char index of the (possibly lowercased) search text, and for its
+/// end: the index of the char of `full_text` that begins there, or `None` in
+/// the middle of a char that lowercasing expanded.
+fn original_char_indices(full_text: &str, search_char_len: usize) -> Vec<Option<usize>> {
+    let full_char_len = full_text.chars().count();
+    if full_char_len == search_char_len {
+        return (0..=search_char_len).map(Some).collect();
+    }
+    let mut map = Vec::with_capacity(search_char_len + 1);
+    for (i, c) in full_text.chars().enumerate() {
+        map.push(Some(i));
+        map.extend(c.to_lowercase().skip(1).map(|_| None));
+    }
+    map.push(Some(full_char_len));
+    map
+}
+
 /// Find all occurrences of the query in the text, respecting search options.
 /// All positions are in char indices (not byte offsets).
 /// Returns a vec of `(char_position, char_length)` for each match.
@@ -120,6 +137,9 @@ pub fn find_all_matches(
         // Build a char-index → byte-offset mapping for the search text
         let char_indices: Vec<usize> = search_text.char_indices().map(|(i, _)| i).collect();
         let query_char_len = search_query.chars().count();
+        // Lowercasing can lengthen a character ('İ'), so matches are mapped
+        // back to the characters of the text itself.
+        let origins = original_char_indices(full_text, char_indices.len());
 
         if query_char_len == 0 || char_indices.len() < query_char_len {
             return Ok(results);
@@ -134,13 +154,16 @@ pub fn find_all_matches(
                 search_text.len()
             };
 
-            if search_text[byte_start..byte_end] == search_query[..] {
+            if search_text[byte_start..byte_end] == search_query[..]
+                && let Some(start) = origins[char_pos]
+                && let Some(end) = origins[char_pos + query_char_len]
+            {
                 if let Some(ref wb) = word_boundaries {
-                    if wb.contains(&char_pos) && wb.contains(&(char_pos + query_char_len)) {
-                        results.push((char_pos, query_char_len));
+                    if wb.contains(&start) && wb.contains(&end) {
+                        results.push((start, end - start));
                     }
                 } else {
-                    results.push((char_pos, query_char_len));
+                    results.push((start, end - start));
                 }
             }
             char_pos += 1;
-- 
2.43.0


From e4c4d08a1365551655fe28136930d45439591f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:38 +0000
Subject: [PATCH 19/59] fix: replace_text after text edits skipped or missed
 matches (stale block positions)

---
 .../document_search/src/use_cases/find_all_uc.rs  |  4 ++--
 .../document_search/src/use_cases/find_text_uc.rs |  4 ++--
 .../src/use_cases/replace_text_uc.rs              |  4 ++++
 .../src/use_cases/search_helpers.rs               | 15 ++++++++++++++-
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/document_search/src/use_cases/find_all_uc.rs b/crates/document_search/src/use_cases/find_all_uc.rs
index 6b98355..78ac22b 100644
--- a/crates/document_search/src/use_cases/find_all_uc.rs
+++ b/crates/document_search/src/use_cases/find_all_uc.rs
@@ -1,5 +1,5 @@
 // Generated by Qleany v1.4.8 from feature_use_case.tera
-use super::search_helpers::{build_full_text_via_store, find_all_matches};
+use super::search_helpers::{build_full_text_via_store, find_all_matches, sort_blocks_by_position};
 use crate::FindAllDto;
 use crate::FindAllResultDto;
 use anyhow::{Result, anyhow};
@@ -50,7 +50,7 @@ fn build_full_text(uow: &dyn FindAllUnitOfWorkTrait) -> Result<String> {
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_by_position(&mut blocks, &uow.store());
 
     Ok(build_full_text_via_store(&blocks, &uow.store()))
 }
diff --git a/crates/document_search/src/use_cases/find_text_uc.rs b/crates/document_search/src/use_cases/find_text_uc.rs
index 9151dff..2362bb0 100644
--- a/crates/document_search/src/use_cases/find_text_uc.rs
+++ b/crates/document_search/src/use_cases/find_text_uc.rs
@@ -1,5 +1,5 @@
 // Generated by Qleany v1.4.8 from feature_use_case.tera
-use super::search_helpers::{build_full_text_via_store, find_all_matches};
+use super::search_helpers::{build_full_text_via_store, find_all_matches, sort_blocks_by_position};
 use crate::FindResultDto;
 use crate::FindTextDto;
 use anyhow::{Result, anyhow};
@@ -50,7 +50,7 @@ fn build_full_text(uow: &dyn FindTextUnitOfWorkTrait) -> Result<String> {
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_by_position(&mut blocks, &uow.store());
 
     Ok(build_full_text_via_store(&blocks, &uow.store()))
 }
diff --git a/crates/document_search/src/use_cases/replace_text_uc.rs b/crates/document_search/src/use_cases/replace_text_uc.rs
index 85888c7..1ab8899 100644
--- a/crates/document_search/src/use_cases/replace_text_uc.rs
+++ b/crates/document_search/src/use_cases/replace_text_uc.rs
@@ -7,6 +7,7 @@ use common::database::rope_helpers::block_char_length;
 use common::database::rope_helpers::rope_flat_text_if_simple;
 use common::database::rope_helpers::{
     block_content_via_store, rope_delete_in_block, rope_insert_in_block,
+    sync_stored_block_positions,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -190,6 +191,9 @@ fn execute_replace(
         .first()
         .ok_or_else(|| anyhow!("Root has no document"))?;
 
+    // Text edits leave the stored block positions stale.
+    sync_stored_block_positions(&uow.store());
+
     let snapshot = uow.snapshot_document(&[doc_id])?;
 
     let (full_text, blocks) = fetch_blocks_and_build_text(uow.as_ref())?;
diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index cc5e5e4..c01494b 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -2,11 +2,24 @@ use std::collections::HashSet;
 
 use anyhow::{Result, anyhow};
 use common::database::Store;
-use common::database::rope_helpers::block_content_via_store;
+use common::database::rope_helpers::{
+    block_content_via_store, block_document_position, rope_positions_match_flow,
+};
 use common::entities::Block;
 use regex::RegexBuilder;
 use unicode_segmentation::UnicodeSegmentation;
 
+/// Sort blocks by their position in the document. Text edits leave the stored
+/// positions stale while the rope is authoritative for them.
+pub fn sort_blocks_by_position(blocks: &mut [Block], store: &Store) {
+    if rope_positions_match_flow(store) {
+        for block in blocks.iter_mut() {
+            block.document_position = block_document_position(block, store);
+        }
+    }
+    blocks.sort_by_key(|b| b.document_position);
+}
+
 /// Build the full document text from main-flow blocks by reading
 /// content from the global rope via `block_offsets`. Blocks whose
 /// content isn't in the rope (e.g. table-cell blocks not yet covered
-- 
2.43.0


From 5cf9a7b3437aed50a1c359a1593055a4e46bc7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 20/59] fix: replace_text replaced overlapping matches and
 corrupted the text

---
 .../document_search/src/use_cases/find_all_uc.rs   |  7 +++++--
 .../src/use_cases/replace_text_uc.rs               |  7 +++++--
 .../src/use_cases/search_helpers.rs                | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/document_search/src/use_cases/find_all_uc.rs b/crates/document_search/src/use_cases/find_all_uc.rs
index 78ac22b..a597855 100644
--- a/crates/document_search/src/use_cases/find_all_uc.rs
+++ b/crates/document_search/src/use_cases/find_all_uc.rs
@@ -1,5 +1,7 @@
 // Generated by Qleany v1.4.8 from feature_use_case.tera
-use super::search_helpers::{build_full_text_via_store, find_all_matches, sort_blocks_by_position};
+use super::search_helpers::{
+    build_full_text_via_store, drop_overlapping_matches, find_all_matches, sort_blocks_by_position,
+};
 use crate::FindAllDto;
 use crate::FindAllResultDto;
 use anyhow::{Result, anyhow};
@@ -70,13 +72,14 @@ impl FindAllUseCase {
 
         let full_text = build_full_text(uow.as_ref())?;
 
-        let all_matches = find_all_matches(
+        let mut all_matches = find_all_matches(
             &full_text,
             &dto.query,
             dto.case_sensitive,
             dto.whole_word,
             dto.use_regex,
         )?;
+        drop_overlapping_matches(&mut all_matches);
 
         uow.end_transaction()?;
 
diff --git a/crates/document_search/src/use_cases/replace_text_uc.rs b/crates/document_search/src/use_cases/replace_text_uc.rs
index 1ab8899..7dbc159 100644
--- a/crates/document_search/src/use_cases/replace_text_uc.rs
+++ b/crates/document_search/src/use_cases/replace_text_uc.rs
@@ -1,4 +1,6 @@
-use super::search_helpers::{build_full_text_via_store, find_all_matches};
+use super::search_helpers::{
+    build_full_text_via_store, drop_overlapping_matches, find_all_matches,
+};
 use crate::ReplaceResultDto;
 use crate::ReplaceTextDto;
 use anyhow::{Result, anyhow};
@@ -198,13 +200,14 @@ fn execute_replace(
 
     let (full_text, blocks) = fetch_blocks_and_build_text(uow.as_ref())?;
 
-    let all_matches = find_all_matches(
+    let mut all_matches = find_all_matches(
         &full_text,
         &dto.query,
         dto.case_sensitive,
         dto.whole_word,
         dto.use_regex,
     )?;
+    drop_overlapping_matches(&mut all_matches);
 
     if all_matches.is_empty() {
         return Ok((
diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index c01494b..d0d2354 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -93,6 +93,20 @@ fn original_char_indices(full_text: &str, search_char_len: usize) -> Vec<Option<
     map
 }
 
+/// Keep the leftmost matches that do not overlap. A literal search also
+/// reports occurrences that overlap, but what has been matched (and is going
+/// to be replaced) cannot be matched again.
+pub fn drop_overlapping_matches(matches: &mut Vec<(usize, usize)>) {
+    let mut end = 0;
+    matches.retain(|&(position, length)| {
+        let keep = position >= end;
+        if keep {
+            end = position + length;
+        }
+        keep
+    });
+}
+
 /// Find all occurrences of the query in the text, respecting search options.
 /// All positions are in char indices (not byte offsets).
 /// Returns a vec of `(char_position, char_length)` for each match.
-- 
2.43.0


From 1a5a6906cc2d6e88defc739737941f37ff307aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 21/59] fix: inserting a row or column through a merged cell
 created cells under it

---
 .../src/use_cases/insert_table_column_uc.rs              | 9 ++++++---
 .../src/use_cases/insert_table_row_uc.rs                 | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index 3009810..c7db272 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -94,6 +94,8 @@ fn execute_insert_table_column(
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    // Rows where a merged cell spans across the inserted column: they get no new cell
+    let mut covered: std::collections::HashSet<i64> = std::collections::HashSet::new();
     for cell in &cells {
         if cell.column >= dto.column_index {
             // Cell starts at or after the insertion point — shift it right
@@ -105,6 +107,7 @@ fn execute_insert_table_column(
             // Cell starts before the insertion point but spans across it — expand span
             let mut expanded = cell.clone();
             expanded.column_span += 1;
+            covered.extend(cell.row..cell.row + cell.row_span);
             expanded.updated_at = now;
             cells_to_update.push(expanded);
         }
@@ -117,7 +120,7 @@ fn execute_insert_table_column(
     // their blocks so we can mirror them into the rope after the entity
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.rows as usize);
-    for r in 0..table.rows {
+    for r in (0..table.rows).filter(|r| !covered.contains(r)) {
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -182,7 +185,7 @@ fn execute_insert_table_column(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.rows;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -210,7 +213,7 @@ fn execute_insert_table_column(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.rows;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 095b84f..6cd1ac3 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -94,6 +94,8 @@ fn execute_insert_table_row(
     let base_pos = compute_table_base_pos(&*uow, &existing_cell_frame_ids)?;
 
     let mut cells_to_update: Vec<TableCell> = Vec::new();
+    // Columns where a merged cell spans across the inserted row: they get no new cell
+    let mut covered: std::collections::HashSet<i64> = std::collections::HashSet::new();
     for cell in &cells {
         if cell.row >= dto.row_index {
             // Cell starts at or after the insertion point — shift it down
@@ -105,6 +107,7 @@ fn execute_insert_table_row(
             // Cell starts before the insertion point but spans across it — expand span
             let mut expanded = cell.clone();
             expanded.row_span += 1;
+            covered.extend(cell.column..cell.column + cell.column_span);
             expanded.updated_at = now;
             cells_to_update.push(expanded);
         }
@@ -117,7 +120,7 @@ fn execute_insert_table_row(
     // so we can mirror them into the global rope after the entity
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.columns as usize);
-    for c in 0..table.columns {
+    for c in (0..table.columns).filter(|c| !covered.contains(c)) {
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -180,7 +183,7 @@ fn execute_insert_table_row(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.columns;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -208,7 +211,7 @@ fn execute_insert_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.columns;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From ed1ab95dd1e7ddef047621991e735d0cab50fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:10 +0000
Subject: [PATCH 22/59] fix: merge_table_cells overlapped a merged cell
 reaching into the range

---
 .../document_editing/src/use_cases/merge_table_cells_uc.rs  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index ea03b4f..1278211 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -108,13 +108,13 @@ fn execute_merge_table_cells(
     let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
     let cells: Vec<TableCell> = cells_opt.into_iter().flatten().collect();
 
-    // Identify cells in the merge range
+    // Identify cells that occupy a part of the merge range
     let cells_in_range: Vec<&TableCell> = cells
         .iter()
         .filter(|c| {
-            c.row >= dto.start_row
+            c.row + c.row_span.max(1) > dto.start_row
                 && c.row <= dto.end_row
-                && c.column >= dto.start_column
+                && c.column + c.column_span.max(1) > dto.start_column
                 && c.column <= dto.end_column
         })
         .collect();
-- 
2.43.0


From ff38a737bc7e56032246b4c6365156ab387ee68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:10 +0000
Subject: [PATCH 23/59] fix: merge_selected_cells took the cell behind an
 anchor at the end of a cell

---
 crates/public_api/src/cursor.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 3181dfc..0eed4c8 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1139,23 +1139,9 @@ impl TextCursor {
 
         // Get anchor cell
         let (_pos, anchor) = self.read_cursor();
-        let anchor_cell = {
-            // Create a temporary block handle at the anchor position
-            let inner = self.doc.lock();
-            let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                position: to_i64(anchor),
-            };
-            let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                .map_err(|_| anyhow::anyhow!("cursor anchor is not inside a table"))?;
-            let block = crate::text_block::TextBlock {
-                doc: self.doc.clone(),
-                block_id: block_info.block_id as usize,
-            };
-            drop(inner);
-            block
-                .table_cell()
-                .ok_or_else(|| anyhow::anyhow!("cursor anchor is not inside a table"))?
-        };
+        let anchor_cell = self
+            .table_cell_at(anchor)
+            .ok_or_else(|| anyhow::anyhow!("cursor anchor is not inside a table"))?;
 
         if pos_cell.table.id() != anchor_cell.table.id() {
             return Err(anyhow::anyhow!(
-- 
2.43.0


From aec6efbd3a9976d9752a0990534e2a6807d0a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 24/59] fix: insert_table left the caret in the text instead of
 the first cell, other cursors behind

---
 crates/document_editing/src/use_cases/insert_table_uc.rs | 3 ++-
 crates/public_api/src/cursor.rs                          | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 7c93ca3..3a786ef 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -520,7 +520,8 @@ fn execute_insert_table(
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-    let new_position = insert_pos;
+    // The caret goes into the first cell.
+    let new_position = cell_start_pos;
 
     Ok((
         InsertTableResultDto {
diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 0eed4c8..ab912e4 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -789,7 +789,8 @@ impl TextCursor {
                 document_editing_commands::insert_table(&inner.ctx, Some(inner.stack_id), &dto)?;
             let new_pos = to_usize(result.new_position);
             let table_id = to_usize(result.table_id);
-            inner.adjust_cursors(pos.min(anchor), 0, new_pos - pos.min(anchor));
+            // Each new (empty) cell takes one position, from the first cell on.
+            inner.adjust_cursors(new_pos, 0, rows * columns);
             {
                 let mut d = self.data.lock();
                 d.position = new_pos;
@@ -797,11 +798,11 @@ impl TextCursor {
             }
             inner.modified = true;
             inner.invalidate_text_cache();
-            inner.rehighlight_affected(pos.min(anchor));
+            inner.rehighlight_affected(new_pos);
             inner.queue_event(DocumentEvent::ContentsChanged {
-                position: pos.min(anchor),
+                position: new_pos,
                 chars_removed: 0,
-                chars_added: new_pos - pos.min(anchor),
+                chars_added: rows * columns,
                 blocks_affected: 1,
             });
             inner.check_block_count_changed();
-- 
2.43.0


From 212698f66fce655167f72512e90fd0ed1edf81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 25/59] fix: copying text in a table cell or sub-frame copied
 it twice

---
 .../document_inspection/src/use_cases/extract_fragment_uc.rs  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
index f52f1e5..c1584e5 100644
--- a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
+++ b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
@@ -102,6 +102,10 @@ impl ExtractFragmentUseCase {
         for frame_id in &frame_ids {
             collect_block_ids_recursive_ro(&*uow, frame_id, &mut all_block_ids)?;
         }
+        // Sub-frames and cell frames are frames of the document as well, so
+        // their blocks come up more than once.
+        let mut seen: HashSet<EntityId> = HashSet::new();
+        all_block_ids.retain(|id| seen.insert(*id));
 
         let blocks_opt = uow.get_block_multi(&all_block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-- 
2.43.0


From e33d2c0f8303de3f47f1f57c22e88cabd8887e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 26/59] fix: copying after text edits took text from stale
 block positions

---
 .../src/use_cases/extract_fragment_uc.rs              | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
index c1584e5..3677f06 100644
--- a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
+++ b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
@@ -2,7 +2,9 @@ use crate::ExtractFragmentDto;
 use crate::ExtractFragmentResultDto;
 use anyhow::{Result, anyhow};
 use common::database::QueryUnitOfWork;
-use common::database::rope_helpers::{block_char_length, block_content_via_store};
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, block_document_position, rope_positions_match_flow,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -109,6 +111,13 @@ impl ExtractFragmentUseCase {
 
         let blocks_opt = uow.get_block_multi(&all_block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+        // Text edits leave the stored positions stale while the rope is
+        // authoritative for them.
+        if rope_positions_match_flow(&store) {
+            for block in blocks.iter_mut() {
+                block.document_position = block_document_position(block, &store);
+            }
+        }
         blocks.sort_by_key(|b| b.document_position);
 
         // ── Detect cross-cell selection ───────────────────────────
-- 
2.43.0


From 176a593e16f002bdc8f9465ce17ca8661f636646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 27/59] fix: pasting a formatted paragraph at the start of a
 block reset the format and list of the block's text

---
 .../src/use_cases/insert_fragment_uc.rs       | 250 +++++-------------
 1 file changed, 63 insertions(+), 187 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index dfbcaf8..a4d5bc7 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1352,96 +1352,34 @@ fn insert_mixed_fragment(
     let mut tail_text_len: i64 = 0;
 
     if !skip_tail_block {
+        // With nothing left of the block, the tail is the fragment's.
+        let rest = if overwrite_head && text_after.is_empty() && right_image_count == 0 {
+            Block::default()
+        } else {
+            current_block.clone()
+        };
         let tail_block = Block {
             id: 0,
             created_at: now,
             updated_at: now,
-            list: if overwrite_head {
-                None
-            } else {
-                current_block.list
-            },
+            list: rest.list,
             document_position: running_position,
-            fmt_alignment: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_alignment.clone()
-            },
-            fmt_top_margin: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_top_margin
-            },
-            fmt_bottom_margin: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_bottom_margin
-            },
-            fmt_left_margin: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_left_margin
-            },
-            fmt_right_margin: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_right_margin
-            },
-            fmt_heading_level: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_heading_level
-            },
-            fmt_indent: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_indent
-            },
-            fmt_text_indent: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_text_indent
-            },
-            fmt_marker: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_marker.clone()
-            },
-            fmt_tab_positions: if overwrite_head {
-                vec![]
-            } else {
-                current_block.fmt_tab_positions.clone()
-            },
-            fmt_line_height: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_line_height
-            },
-            fmt_non_breakable_lines: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_non_breakable_lines
-            },
-            fmt_direction: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_direction.clone()
-            },
-            fmt_background_color: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_background_color.clone()
-            },
-            fmt_is_code_block: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_is_code_block
-            },
-            fmt_code_language: if overwrite_head {
-                None
-            } else {
-                current_block.fmt_code_language.clone()
-            },
+            fmt_alignment: rest.fmt_alignment.clone(),
+            fmt_top_margin: rest.fmt_top_margin,
+            fmt_bottom_margin: rest.fmt_bottom_margin,
+            fmt_left_margin: rest.fmt_left_margin,
+            fmt_right_margin: rest.fmt_right_margin,
+            fmt_heading_level: rest.fmt_heading_level,
+            fmt_indent: rest.fmt_indent,
+            fmt_text_indent: rest.fmt_text_indent,
+            fmt_marker: rest.fmt_marker.clone(),
+            fmt_tab_positions: rest.fmt_tab_positions.clone(),
+            fmt_line_height: rest.fmt_line_height,
+            fmt_non_breakable_lines: rest.fmt_non_breakable_lines,
+            fmt_direction: rest.fmt_direction.clone(),
+            fmt_background_color: rest.fmt_background_color.clone(),
+            fmt_is_code_block: rest.fmt_is_code_block,
+            fmt_code_language: rest.fmt_code_language.clone(),
         };
 
         let created_tail = uow.create_block(&tail_block, frame_id, -1)?;
@@ -1929,96 +1867,34 @@ fn execute_insert_fragment(
         let mut tail_text_len: i64 = 0;
 
         if !skip_tail {
+            // With nothing left of the block, the tail is the fragment's.
+            let rest = if overwrite_head && text_after.is_empty() && right_image_count == 0 {
+                Block::default()
+            } else {
+                current_block.clone()
+            };
             let tail_block = Block {
                 id: 0,
                 created_at: now,
                 updated_at: now,
-                list: if overwrite_head {
-                    None
-                } else {
-                    current_block.list
-                },
+                list: rest.list,
                 document_position: running_position,
-                fmt_alignment: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_alignment.clone()
-                },
-                fmt_top_margin: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_top_margin
-                },
-                fmt_bottom_margin: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_bottom_margin
-                },
-                fmt_left_margin: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_left_margin
-                },
-                fmt_right_margin: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_right_margin
-                },
-                fmt_heading_level: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_heading_level
-                },
-                fmt_indent: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_indent
-                },
-                fmt_text_indent: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_text_indent
-                },
-                fmt_marker: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_marker.clone()
-                },
-                fmt_tab_positions: if overwrite_head {
-                    vec![]
-                } else {
-                    current_block.fmt_tab_positions.clone()
-                },
-                fmt_line_height: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_line_height
-                },
-                fmt_non_breakable_lines: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_non_breakable_lines
-                },
-                fmt_direction: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_direction.clone()
-                },
-                fmt_background_color: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_background_color.clone()
-                },
-                fmt_is_code_block: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_is_code_block
-                },
-                fmt_code_language: if overwrite_head {
-                    None
-                } else {
-                    current_block.fmt_code_language.clone()
-                },
+                fmt_alignment: rest.fmt_alignment.clone(),
+                fmt_top_margin: rest.fmt_top_margin,
+                fmt_bottom_margin: rest.fmt_bottom_margin,
+                fmt_left_margin: rest.fmt_left_margin,
+                fmt_right_margin: rest.fmt_right_margin,
+                fmt_heading_level: rest.fmt_heading_level,
+                fmt_indent: rest.fmt_indent,
+                fmt_text_indent: rest.fmt_text_indent,
+                fmt_marker: rest.fmt_marker.clone(),
+                fmt_tab_positions: rest.fmt_tab_positions.clone(),
+                fmt_line_height: rest.fmt_line_height,
+                fmt_non_breakable_lines: rest.fmt_non_breakable_lines,
+                fmt_direction: rest.fmt_direction.clone(),
+                fmt_background_color: rest.fmt_background_color.clone(),
+                fmt_is_code_block: rest.fmt_is_code_block,
+                fmt_code_language: rest.fmt_code_language.clone(),
             };
 
             let tail_insert_index = (block_idx + 1 + new_block_ids.len()) as i32;
@@ -2197,24 +2073,24 @@ fn execute_insert_fragment(
                     id: 0,
                     created_at: now,
                     updated_at: now,
-                    list: None,
+                    list: current_block.list,
                     document_position: running_position,
-                    fmt_alignment: None,
-                    fmt_top_margin: None,
-                    fmt_bottom_margin: None,
-                    fmt_left_margin: None,
-                    fmt_right_margin: None,
-                    fmt_heading_level: None,
-                    fmt_indent: None,
-                    fmt_text_indent: None,
-                    fmt_marker: None,
-                    fmt_tab_positions: vec![],
-                    fmt_line_height: None,
-                    fmt_non_breakable_lines: None,
-                    fmt_direction: None,
-                    fmt_background_color: None,
-                    fmt_is_code_block: None,
-                    fmt_code_language: None,
+                    fmt_alignment: current_block.fmt_alignment.clone(),
+                    fmt_top_margin: current_block.fmt_top_margin,
+                    fmt_bottom_margin: current_block.fmt_bottom_margin,
+                    fmt_left_margin: current_block.fmt_left_margin,
+                    fmt_right_margin: current_block.fmt_right_margin,
+                    fmt_heading_level: current_block.fmt_heading_level,
+                    fmt_indent: current_block.fmt_indent,
+                    fmt_text_indent: current_block.fmt_text_indent,
+                    fmt_marker: current_block.fmt_marker.clone(),
+                    fmt_tab_positions: current_block.fmt_tab_positions.clone(),
+                    fmt_line_height: current_block.fmt_line_height,
+                    fmt_non_breakable_lines: current_block.fmt_non_breakable_lines,
+                    fmt_direction: current_block.fmt_direction.clone(),
+                    fmt_background_color: current_block.fmt_background_color.clone(),
+                    fmt_is_code_block: current_block.fmt_is_code_block,
+                    fmt_code_language: current_block.fmt_code_language.clone(),
                 };
 
                 let created_tail =
-- 
2.43.0


From c2c3b527753debfedc797ded52cf0efe8ff517bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 28/59] fix: pasting a table over table cells wrote the formats
 but not the text

---
 .../src/use_cases/insert_fragment_uc.rs       | 111 +++++++++++++-----
 1 file changed, 79 insertions(+), 32 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index a4d5bc7..60c3350 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -9,8 +9,8 @@ use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::refresh_flow_block_positions;
 use common::database::rope_helpers::{
     block_char_length, rope_append_block, rope_delete_in_block, rope_insert_block_at,
-    rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_split_block,
-    top_level_frame_end_byte,
+    rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_remove_block,
+    rope_replace_block_content, rope_split_block, top_level_frame_end_byte,
 };
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -321,6 +321,10 @@ fn try_replace_table_cells(
         return Ok(None);
     }
 
+    let mut blocks_delta: i64 = 0;
+    let mut chars_delta: i64 = 0;
+    let mut new_position = dto.position;
+
     for frag_cell in &frag_table.cells {
         let target_row = base_row + frag_cell.row;
         let target_col = base_col + frag_cell.column;
@@ -341,50 +345,93 @@ fn try_replace_table_cells(
         let existing_blk_ids =
             uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?;
         let existing_blks_opt = uow.get_block_multi(&existing_blk_ids)?;
-        let existing_blks: Vec<Block> = existing_blks_opt.into_iter().flatten().collect();
+        let mut existing_blks: Vec<Block> = existing_blks_opt.into_iter().flatten().collect();
+        existing_blks.sort_by_key(|b| b.document_position);
+        let Some(first_blk) = existing_blks.first() else {
+            continue;
+        };
+
+        let store = uow.store();
+        for blk in &existing_blks {
+            chars_delta -= block_char_length(blk, &store);
+        }
 
         // Drop all blocks except the first (we'll reuse it).
         for blk in existing_blks.iter().skip(1) {
             clear_block_state(uow, blk.id);
+            rope_remove_block(&store, blk.id);
             uow.remove_block(&blk.id)?;
+            blocks_delta -= 1;
+        }
+        clear_block_state(uow, first_blk.id);
+
+        let first_text = frag_cell
+            .blocks
+            .first()
+            .map_or("", |fb| fb.plain_text.as_str());
+        let mut updated = first_blk.clone();
+        updated.updated_at = now;
+        uow.update_block(&updated)?;
+        rope_replace_block_content(&store, first_blk.id, first_text);
+        if let Some(first_frag_blk) = frag_cell.blocks.first() {
+            let (runs, images) = frag_block_state(first_frag_blk);
+            chars_delta += first_text.chars().count() as i64 + images.len() as i64;
+            write_block_state(uow, first_blk.id, runs, images);
         }
 
-        if let Some(first_blk) = existing_blks.first() {
-            clear_block_state(uow, first_blk.id);
-
-            if let Some(first_frag_blk) = frag_cell.blocks.first() {
-                let (runs, images) = frag_block_state(first_frag_blk);
-                let mut updated = first_blk.clone();
-                updated.updated_at = now;
-                uow.update_block(&updated)?;
-                write_block_state(uow, first_blk.id, runs, images);
+        let mut cell_block_ids: Vec<i64> = vec![first_blk.id as i64];
+        let mut prev_id = first_blk.id;
+        let mut prev_byte_len = first_text.len() as u32;
+        for extra_frag in frag_cell.blocks.iter().skip(1) {
+            let (xruns, ximages) = frag_block_state(extra_frag);
+            chars_delta += extra_frag.plain_text.chars().count() as i64 + ximages.len() as i64;
+            blocks_delta += 1;
+            let extra_block = Block {
+                id: 0,
+                created_at: now,
+                updated_at: now,
+                list: None,
+                document_position: 0,
+                ..Default::default()
+            };
+            let created = uow.create_block(&extra_block, cf_id, -1)?;
+            rope_split_block(&store, prev_id, prev_byte_len, created.id);
+            rope_insert_in_block(&store, created.id, 0, &extra_frag.plain_text);
+            write_block_state(uow, created.id, xruns, ximages);
+            cell_block_ids.push(created.id as i64);
+            prev_id = created.id;
+            prev_byte_len = extra_frag.plain_text.len() as u32;
+        }
 
-                for extra_frag in &frag_cell.blocks[1..] {
-                    let (xruns, ximages) = frag_block_state(extra_frag);
-                    let extra_block = Block {
-                        id: 0,
-                        created_at: now,
-                        updated_at: now,
-                        list: None,
-                        document_position: 0,
-                        ..Default::default()
-                    };
-                    let created = uow.create_block(&extra_block, cf_id, -1)?;
-                    write_block_state(uow, created.id, xruns, ximages);
-                }
-            } else {
-                let mut updated = first_blk.clone();
-                updated.updated_at = now;
-                uow.update_block(&updated)?;
-                write_block_state(uow, first_blk.id, Vec::new(), Vec::new());
+        let mut cell_frame = uow
+            .get_frame(&cf_id)?
+            .ok_or_else(|| anyhow!("Cell frame not found"))?;
+        cell_frame.child_order = cell_block_ids;
+        cell_frame.updated_at = now;
+        uow.update_frame(&cell_frame)?;
+
+        if Some(cf_id) == cursor_cf {
+            new_position = first_blk.document_position - 1;
+            for fb in &frag_cell.blocks {
+                let (_, images) = frag_block_state(fb);
+                new_position += fb.plain_text.chars().count() as i64 + images.len() as i64 + 1;
             }
+            new_position = new_position.max(first_blk.document_position);
         }
     }
 
+    let mut updated_doc = uow
+        .get_document(&doc_id)?
+        .ok_or_else(|| anyhow!("Document not found"))?;
+    updated_doc.block_count += blocks_delta;
+    updated_doc.character_count += chars_delta;
+    updated_doc.updated_at = now;
+    uow.update_document(&updated_doc)?;
+
     Ok(Some((
         InsertFragmentResultDto {
-            new_position: dto.position,
-            blocks_added: 0,
+            new_position,
+            blocks_added: blocks_delta.max(0),
         },
         snapshot,
     )))
-- 
2.43.0


From acdd4127e69764799ab655bcfda202900b2c8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 29/59] fix: insert_table in a cell of an imported or pasted
 table, or of an added row, corrupted the document

---
 .../src/use_cases/editing_helpers.rs          | 54 ++++++++++++++-
 .../src/use_cases/insert_table_uc.rs          | 68 ++++++-------------
 2 files changed, 75 insertions(+), 47 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..329bab1 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -2,7 +2,7 @@ use anyhow::{Result, anyhow};
 use common::database::Store;
 use common::database::rope_helpers::{block_char_length, find_block_at_char_position};
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
-use common::entities::{Block, Frame};
+use common::entities::{Block, Frame, Table};
 use common::format_runs::{InlineContent, InlineSegment};
 use common::types::EntityId;
 
@@ -159,6 +159,58 @@ pub fn is_word_boundary_punct(c: char) -> bool {
     )
 }
 
+/// The table that has a frame (or a frame around it) as one of its cells.
+pub struct ContainingTable {
+    /// The frame that stands for the table in its parent's `child_order`.
+    pub anchor_frame: EntityId,
+    pub parent_frame: EntityId,
+    /// Every block in the cells of the table.
+    pub cell_blocks: Vec<EntityId>,
+}
+
+/// Find the table a frame lies in. Goes by the cells themselves: the
+/// `parent_frame` of a cell frame is not set for every table (imported
+/// tables, pasted tables, rows and columns added later).
+pub fn containing_table(store: &Store, frame_id: EntityId) -> Option<ContainingTable> {
+    let frames = store.frames.read().unwrap();
+    let tables = store.tables.read().unwrap();
+    let cells = store.table_cells.read().unwrap();
+
+    let mut current = frame_id;
+    let table = loop {
+        let cell_of = |t: &&Table| {
+            t.cells
+                .iter()
+                .filter_map(|id| cells.get(id))
+                .any(|c| c.cell_frame == Some(current))
+        };
+        if let Some(table) = tables.values().find(cell_of) {
+            break table;
+        }
+        current = frames.get(&current)?.parent_frame?;
+    };
+
+    let anchor = frames.values().find(|f| f.table == Some(table.id))?;
+    let mut cell_blocks: Vec<EntityId> = Vec::new();
+    let mut pending: Vec<EntityId> = table
+        .cells
+        .iter()
+        .filter_map(|id| cells.get(id)?.cell_frame)
+        .collect();
+    while let Some(id) = pending.pop() {
+        if let Some(frame) = frames.get(&id) {
+            cell_blocks.extend(&frame.blocks);
+            let sub_frames = frame.child_order.iter().filter(|&&entry| entry < 0);
+            pending.extend(sub_frames.map(|&entry| (-entry) as EntityId));
+        }
+    }
+    Some(ContainingTable {
+        anchor_frame: anchor.id,
+        parent_frame: anchor.parent_frame?,
+        cell_blocks,
+    })
+}
+
 /// Find the block containing the given document position from a sorted list of blocks.
 ///
 /// Returns `(block, index_in_list, offset_within_block)`.
diff --git a/crates/document_editing/src/use_cases/insert_table_uc.rs b/crates/document_editing/src/use_cases/insert_table_uc.rs
index 3a786ef..8f1bb24 100644
--- a/crates/document_editing/src/use_cases/insert_table_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_uc.rs
@@ -15,7 +15,8 @@ use common::undo_redo::UndoRedoCommand;
 use std::any::Any;
 
 use super::editing_helpers::{
-    CellFrameCreator, create_cell_frame, find_block_at_position, impl_cell_frame_creator,
+    CellFrameCreator, ContainingTable, containing_table, create_cell_frame, find_block_at_position,
+    impl_cell_frame_creator,
 };
 
 pub trait InsertTableUnitOfWorkFactoryTrait: Send + Sync {
@@ -224,22 +225,14 @@ fn execute_insert_table(
         // hoist the new table OUT to be a sibling of the containing
         // table, immediately after it. Reproduced by
         // `insert_table_from_inside_cell_lands_after_containing_table`.
-        let owning_frame = uow
-            .get_frame(&found_frame_id)?
-            .ok_or_else(|| anyhow!("Owning frame {found_frame_id} not found"))?;
-        let mut cell_anchor: Option<(EntityId, EntityId)> = None;
-        if let Some(parent_id) = owning_frame.parent_frame {
-            let parent = uow
-                .get_frame(&parent_id)?
-                .ok_or_else(|| anyhow!("Parent frame {parent_id} not found"))?;
-            if parent.table.is_some()
-                && let Some(grandparent_id) = parent.parent_frame
-            {
-                cell_anchor = Some((parent_id, grandparent_id));
-            }
-        }
-
-        if let Some((anchor_frame_id, grandparent_id)) = cell_anchor {
+        let cell_anchor = containing_table(&uow.store(), found_frame_id);
+
+        if let Some(ContainingTable {
+            anchor_frame: anchor_frame_id,
+            parent_frame: grandparent_id,
+            cell_blocks,
+        }) = cell_anchor
+        {
             let grandparent = uow
                 .get_frame(&grandparent_id)?
                 .ok_or_else(|| anyhow!("Grandparent frame {grandparent_id} not found"))?;
@@ -251,36 +244,19 @@ fn execute_insert_table(
                 .ok_or_else(|| anyhow!("Anchor frame missing from grandparent child_order"))?;
 
             // cell_start: position right after the existing table's
-            // last cell. Cells of the existing table are blocks in
-            // frames whose `parent_frame == anchor_frame_id`. The
-            // snapshot walker assigns running positions where each
-            // block contributes (length + 1) — the +1 is the per-block
-            // boundary the walker emits between siblings. So the next
-            // free slot in the grandparent's flow is
+            // last cell. The snapshot walker assigns running positions
+            // where each block contributes (length + 1) — the +1 is the
+            // per-block boundary the walker emits between siblings. So
+            // the next free slot in the grandparent's flow is
             // `max(cell_block.document_position + cell_block.length) + 1`.
-            let mut last_end: i64 = 0;
-            let mut any = false;
-            for fid in &frame_ids {
-                let f = uow
-                    .get_frame(fid)?
-                    .ok_or_else(|| anyhow!("Frame {fid} not found"))?;
-                if f.parent_frame != Some(anchor_frame_id) {
-                    continue;
-                }
-                let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-                if block_ids.is_empty() {
-                    continue;
-                }
-                let blocks_opt = uow.get_block_multi(&block_ids)?;
-                for b in blocks_opt.into_iter().flatten() {
-                    let end = b.document_position + block_char_length(&b, &uow.store());
-                    if !any || end > last_end {
-                        last_end = end;
-                        any = true;
-                    }
-                }
-            }
-            let hoisted_cell_start = last_end + 1;
+            let store = uow.store();
+            let hoisted_cell_start = uow
+                .get_block_multi(&cell_blocks)?
+                .into_iter()
+                .flatten()
+                .map(|b| b.document_position + block_char_length(&b, &store) + 1)
+                .max()
+                .unwrap_or(insert_pos);
             (
                 grandparent_id,
                 anchor_idx + 1,
-- 
2.43.0


From 10010c56e7ef1adfc968720aad24e164643e667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 30/59] fix: pasted tables went to the wrong place (into cells,
 the wrong frame, behind the caret's block)

---
 .../src/use_cases/insert_fragment_uc.rs       | 154 +++++++++++++-----
 crates/public_api/src/cursor.rs               |  51 ++++++
 crates/public_api/src/fragment.rs             |   6 +
 3 files changed, 168 insertions(+), 43 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 60c3350..cdda5bd 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellFrameCreator, collect_block_ids_recursive, create_cell_frame, find_block_at_position,
-    impl_cell_frame_creator,
+    CellFrameCreator, collect_block_ids_recursive, containing_table, create_cell_frame,
+    find_block_at_position, impl_cell_frame_creator,
 };
 use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
@@ -431,7 +431,7 @@ fn try_replace_table_cells(
     Ok(Some((
         InsertFragmentResultDto {
             new_position,
-            blocks_added: blocks_delta.max(0),
+            blocks_added: 0,
         },
         snapshot,
     )))
@@ -466,27 +466,67 @@ fn insert_table_fragment(
     common::database::rope_helpers::sync_stored_block_positions(&uow.store());
 
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-    let frame_id = *frame_ids
+    let root_frame_id = *frame_ids
         .first()
         .ok_or_else(|| anyhow!("Document has no frames"))?;
 
-    let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-    let blocks_opt = uow.get_block_multi(&block_ids)?;
+    let mut block_to_frame: HashMap<EntityId, EntityId> = HashMap::new();
+    collect_all_blocks_with_frame(&**uow, &root_frame_id, &mut block_to_frame)?;
+    let all_block_ids: Vec<EntityId> = block_to_frame.keys().copied().collect();
+    let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
     blocks.sort_by_key(|b| b.document_position);
 
-    let insert_pos = dto.position;
-
-    let child_order_insert_idx = if blocks.is_empty() {
-        0usize
+    // Where the tables go: the frame, the index in its `child_order`, the
+    // block beside the table (none in an empty document) and the position of
+    // the first cell. As in `insert_table`, a table goes before the block
+    // whose start the cursor is at, otherwise behind the whole block, and
+    // never into a cell of another table but behind that table.
+    let (frame_id, child_order_insert_idx, rope_target, insert_pos) = if blocks.is_empty() {
+        (root_frame_id, 0usize, None, dto.position)
     } else {
-        let (target_block, _, _) = find_block_at_position(&blocks, insert_pos, &uow.store())?;
-        let blk_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
-        blk_ids
-            .iter()
-            .position(|&bid| bid == target_block.id)
-            .map(|i| i + 1)
-            .unwrap_or(0)
+        let store = uow.store();
+        let (target_block, _, offset) = find_block_at_position(&blocks, dto.position, &store)?;
+        let owner = block_to_frame[&target_block.id];
+        if let Some(outer) = containing_table(&store, owner) {
+            let parent = uow
+                .get_frame(&outer.parent_frame)?
+                .ok_or_else(|| anyhow!("Parent frame not found"))?;
+            let anchor_entry = -(outer.anchor_frame as i64);
+            let anchor_idx = parent
+                .child_order
+                .iter()
+                .position(|&e| e == anchor_entry)
+                .ok_or_else(|| anyhow!("Anchor frame missing from its parent's child_order"))?;
+            let behind = blocks
+                .iter()
+                .filter(|b| outer.cell_blocks.contains(&b.id))
+                .map(|b| b.document_position + block_char_length(b, &store) + 1)
+                .max()
+                .unwrap_or(dto.position);
+            (
+                parent.id,
+                anchor_idx + 1,
+                Some((target_block.id, true)),
+                behind,
+            )
+        } else {
+            let owner_frame = uow
+                .get_frame(&owner)?
+                .ok_or_else(|| anyhow!("Frame not found"))?;
+            let idx_after = child_order_index_after(&owner_frame, target_block.id);
+            if offset > 0 {
+                let end = target_block.document_position + block_char_length(&target_block, &store);
+                (owner, idx_after, Some((target_block.id, true)), end + 1)
+            } else {
+                (
+                    owner,
+                    idx_after - 1,
+                    Some((target_block.id, false)),
+                    target_block.document_position,
+                )
+            }
+        }
     };
 
     let mut total_blocks_added: i64 = 0;
@@ -511,27 +551,8 @@ fn insert_table_fragment(
         // entity mutations proceed so the rope replay below has the
         // exact IDs to wire up.
         let mut this_table_cells: Vec<CellPayload> = Vec::new();
-        // Determine the target block + anchor side for this table.
-        let (anchor_target, anchor_after) = if let Some(first) = blocks.first() {
-            // Find the block currently at `insert_pos` (or fall back to
-            // the first block) and decide before/after based on offset.
-            //
-            // `offset > 0` is the right test (rather than `offset >=
-            // text_length`): for an empty block at the cursor we want
-            // `after=false` so the anchor takes the empty block's
-            // position and the (shifted) block lands after it. Without
-            // this, `rope_insert_table_anchor` with `after=true` on a
-            // last-and-empty target produces an unsorted block_offsets
-            // vec, breaking range lookups.
-            match find_block_at_position(&blocks, insert_pos, &uow.store()) {
-                Ok((tb, _, offset)) => (tb.id, offset > 0),
-                Err(_) => (first.id, false),
-            }
-        } else {
-            // Empty-frame edge case: defer the rope mirror for this
-            // table (no rope target exists to anchor against).
-            (0, false)
-        };
+        // Empty-document edge case: no rope target exists to anchor against.
+        let (anchor_target, anchor_after) = rope_target.unwrap_or((0, false));
 
         let table = Table {
             id: 0,
@@ -688,8 +709,7 @@ fn insert_table_fragment(
                 let mut iter = cell_blocks.iter();
                 if let Some((first_id, first_text)) = iter.next() {
                     // First cell-block goes at top_level_frame_end_byte
-                    // of the table's parent frame (= frame_id, the
-                    // document's top-level frame in this UC).
+                    // of the table's parent frame.
                     let pos = top_level_frame_end_byte(&store, frame_id);
                     rope_insert_block_at(&store, pos, *first_id, first_text);
                     let mut prev_id = *first_id;
@@ -1509,6 +1529,50 @@ fn insert_mixed_fragment(
     ))
 }
 
+/// Whether the block at `position` lies in a table cell.
+fn position_is_in_table(
+    uow: &mut Box<dyn InsertFragmentUnitOfWorkTrait>,
+    position: i64,
+) -> Result<bool> {
+    let root = uow
+        .get_root(&ROOT_ENTITY_ID)?
+        .ok_or_else(|| anyhow!("Root entity not found"))?;
+    let doc_ids = uow.get_root_relationship(&root.id, &RootRelationshipField::Document)?;
+    let doc_id = *doc_ids
+        .first()
+        .ok_or_else(|| anyhow!("Root has no document"))?;
+    let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
+    let root_frame_id = *frame_ids
+        .first()
+        .ok_or_else(|| anyhow!("Document has no frames"))?;
+
+    let mut block_to_frame: HashMap<EntityId, EntityId> = HashMap::new();
+    collect_all_blocks_with_frame(&**uow, &root_frame_id, &mut block_to_frame)?;
+    let block_ids: Vec<EntityId> = block_to_frame.keys().copied().collect();
+    let mut blocks: Vec<Block> = uow
+        .get_block_multi(&block_ids)?
+        .into_iter()
+        .flatten()
+        .collect();
+    blocks.sort_by_key(|b| b.document_position);
+
+    let store = uow.store();
+    let (block, _, _) = find_block_at_position(&blocks, position, &store)?;
+    Ok(containing_table(&store, block_to_frame[&block.id]).is_some())
+}
+
+/// Replace the tables of a fragment by the blocks of their cells, row by row.
+fn flatten_tables(fragment_data: &mut FragmentData) {
+    let mut tables = std::mem::take(&mut fragment_data.tables);
+    tables.sort_by_key(|t| t.block_insert_index);
+    for mut table in tables.into_iter().rev() {
+        let at = table.block_insert_index.min(fragment_data.blocks.len());
+        table.cells.sort_by_key(|c| (c.row, c.column));
+        let cell_blocks = table.cells.into_iter().flat_map(|c| c.blocks);
+        fragment_data.blocks.splice(at..at, cell_blocks);
+    }
+}
+
 fn execute_insert_fragment(
     uow: &mut Box<dyn InsertFragmentUnitOfWorkTrait>,
     dto: &InsertFragmentDto,
@@ -1522,7 +1586,7 @@ fn execute_insert_fragment(
         ));
     }
 
-    let fragment_data: FragmentData = serde_json::from_str(&dto.fragment_data)
+    let mut fragment_data: FragmentData = serde_json::from_str(&dto.fragment_data)
         .map_err(|e| anyhow!("Invalid fragment_data JSON: {}", e))?;
 
     if fragment_data.blocks.is_empty() && fragment_data.tables.is_empty() {
@@ -1533,8 +1597,12 @@ fn execute_insert_fragment(
         return insert_table_fragment(uow, dto, &fragment_data);
     }
 
-    if !fragment_data.tables.is_empty() && !fragment_data.blocks.is_empty() {
-        return insert_mixed_fragment(uow, dto, &fragment_data);
+    if !fragment_data.tables.is_empty() {
+        if !position_is_in_table(uow, dto.position)? {
+            return insert_mixed_fragment(uow, dto, &fragment_data);
+        }
+        // Tables don't nest: text with tables arrives in a cell as text.
+        flatten_tables(&mut fragment_data);
     }
 
     // ── Block-only fragment ──
diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index ab912e4..6b13343 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -39,6 +39,13 @@ fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto)
     }
 }
 
+/// Largest cursor position of the document.
+fn document_extent(inner: &TextDocumentInner) -> usize {
+    document_inspection_commands::get_document_stats(&inner.ctx)
+        .map(|stats| max_cursor_position(&stats))
+        .unwrap_or(0)
+}
+
 /// A cursor into a [`TextDocument`](crate::TextDocument).
 ///
 /// Multiple cursors can coexist on the same document (like Qt's `QTextCursor`).
@@ -612,6 +619,12 @@ impl TextCursor {
                 (pos, 0)
             };
 
+            let tables_only = fragment.is_tables_only();
+            let extent_before = if tables_only {
+                document_extent(&inner)
+            } else {
+                0
+            };
             let dto = frontend::document_editing::InsertFragmentDto {
                 position: to_i64(insert_pos),
                 anchor: to_i64(insert_pos),
@@ -625,6 +638,44 @@ impl TextCursor {
             }
 
             let edit_pos = pos.min(anchor);
+            if tables_only && result.blocks_added > 0 {
+                // The tables go in as a whole from their first cell on,
+                // which need not be where the cursor was.
+                let new_pos = to_usize(result.new_position);
+                let added = document_extent(&inner) - extent_before;
+                if removed > 0 {
+                    inner.adjust_cursors(edit_pos, removed, 0);
+                }
+                inner.adjust_cursors(new_pos, 0, added);
+                {
+                    let mut d = self.data.lock();
+                    d.position = new_pos;
+                    d.anchor = new_pos;
+                }
+                inner.modified = true;
+                inner.invalidate_text_cache();
+                inner.rehighlight_all();
+                if removed > 0 {
+                    inner.queue_event(DocumentEvent::ContentsChanged {
+                        position: edit_pos,
+                        chars_removed: removed,
+                        chars_added: 0,
+                        blocks_affected: 1,
+                    });
+                }
+                inner.queue_event(DocumentEvent::ContentsChanged {
+                    position: new_pos,
+                    chars_removed: 0,
+                    chars_added: added,
+                    blocks_affected: to_usize(result.blocks_added),
+                });
+                inner.check_block_count_changed();
+                inner.check_flow_changed();
+                let queued = self.queue_undo_redo_event(&mut inner);
+                drop(inner);
+                crate::inner::dispatch_queued_events(queued);
+                return Ok(());
+            }
             self.finish_edit(
                 &mut inner,
                 edit_pos,
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 7544acd..cc2ce25 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -327,6 +327,12 @@ impl DocumentFragment {
         self.plain_text.is_empty()
     }
 
+    /// Whether the fragment consists of tables, without text around them.
+    pub(crate) fn is_tables_only(&self) -> bool {
+        serde_json::from_str::<FragmentData>(&self.data)
+            .is_ok_and(|d| d.blocks.is_empty() && !d.tables.is_empty())
+    }
+
     /// Returns the serialized internal representation.
     pub(crate) fn raw_data(&self) -> &str {
         &self.data
-- 
2.43.0


From c1f83b309bd4da08eed0ea604728bbbcb1d370d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:41 +0000
Subject: [PATCH 31/59] fix: pasted table cells lost the format of their
 paragraphs

---
 .../src/use_cases/insert_fragment_uc.rs       | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index cdda5bd..a8ae185 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -134,6 +134,26 @@ fn frag_block_state(fb: &FragmentBlock) -> (Vec<FormatRun>, Vec<ImageAnchor>) {
     (runs, images)
 }
 
+/// Give `block` the paragraph format of a fragment block.
+fn apply_block_format(block: &mut Block, fb: &FragmentBlock) {
+    block.fmt_alignment = fb.alignment.clone();
+    block.fmt_top_margin = fb.top_margin;
+    block.fmt_bottom_margin = fb.bottom_margin;
+    block.fmt_left_margin = fb.left_margin;
+    block.fmt_right_margin = fb.right_margin;
+    block.fmt_heading_level = fb.heading_level;
+    block.fmt_indent = fb.indent;
+    block.fmt_text_indent = fb.text_indent;
+    block.fmt_marker = fb.marker.clone();
+    block.fmt_tab_positions = fb.tab_positions.clone();
+    block.fmt_line_height = fb.line_height;
+    block.fmt_non_breakable_lines = fb.non_breakable_lines;
+    block.fmt_direction = fb.direction.clone();
+    block.fmt_background_color = fb.background_color.clone();
+    block.fmt_is_code_block = fb.is_code_block;
+    block.fmt_code_language = fb.code_language.clone();
+}
+
 /// Write `format_runs` and `block_images` for `block_id`, then reverse-sync
 /// the legacy inline_elements bridge.
 fn write_block_state(
@@ -371,6 +391,9 @@ fn try_replace_table_cells(
             .map_or("", |fb| fb.plain_text.as_str());
         let mut updated = first_blk.clone();
         updated.updated_at = now;
+        if let Some(first_frag_blk) = frag_cell.blocks.first() {
+            apply_block_format(&mut updated, first_frag_blk);
+        }
         uow.update_block(&updated)?;
         rope_replace_block_content(&store, first_blk.id, first_text);
         if let Some(first_frag_blk) = frag_cell.blocks.first() {
@@ -386,7 +409,7 @@ fn try_replace_table_cells(
             let (xruns, ximages) = frag_block_state(extra_frag);
             chars_delta += extra_frag.plain_text.chars().count() as i64 + ximages.len() as i64;
             blocks_delta += 1;
-            let extra_block = Block {
+            let mut extra_block = Block {
                 id: 0,
                 created_at: now,
                 updated_at: now,
@@ -394,6 +417,7 @@ fn try_replace_table_cells(
                 document_position: 0,
                 ..Default::default()
             };
+            apply_block_format(&mut extra_block, extra_frag);
             let created = uow.create_block(&extra_block, cf_id, -1)?;
             rope_split_block(&store, prev_id, prev_byte_len, created.id);
             rope_insert_in_block(&store, created.id, 0, &extra_frag.plain_text);
@@ -589,6 +613,7 @@ fn insert_table_fragment(
                 let mut updated_block = created_block.clone();
                 updated_block.document_position = current_pos;
                 updated_block.updated_at = now;
+                apply_block_format(&mut updated_block, first_frag);
                 cell_blocks_to_update.push(updated_block);
                 write_block_state(uow, created_block.id, runs, images);
                 this_cell_blocks.push((created_block.id, first_frag.plain_text.clone()));
@@ -601,7 +626,7 @@ fn insert_table_fragment(
                     let (xruns, ximages) = frag_block_state(extra_frag);
                     let extra_chars = extra_frag.plain_text.chars().count() as i64;
                     let extra_len = extra_chars + ximages.len() as i64;
-                    let extra_block = Block {
+                    let mut extra_block = Block {
                         id: 0,
                         created_at: now,
                         updated_at: now,
@@ -609,6 +634,7 @@ fn insert_table_fragment(
                         document_position: current_pos,
                         ..Default::default()
                     };
+                    apply_block_format(&mut extra_block, extra_frag);
                     let created_extra = uow.create_block(&extra_block, cell_frame_id, -1)?;
                     write_block_state(uow, created_extra.id, xruns, ximages);
                     this_cell_blocks.push((created_extra.id, extra_frag.plain_text.clone()));
@@ -1236,6 +1262,7 @@ fn insert_mixed_fragment(
                         let mut updated_block = created_block.clone();
                         updated_block.document_position = running_position;
                         updated_block.updated_at = now;
+                        apply_block_format(&mut updated_block, first_cb);
                         cell_blocks_to_update.push(updated_block);
                         write_block_state(uow, created_block.id, runs, images);
                         this_cell_blocks.push((created_block.id, first_cb.plain_text.clone()));
@@ -1248,7 +1275,7 @@ fn insert_mixed_fragment(
                             let (xruns, ximages) = frag_block_state(extra_frag);
                             let extra_chars = extra_frag.plain_text.chars().count() as i64;
                             let extra_len = extra_chars + ximages.len() as i64;
-                            let extra_block = Block {
+                            let mut extra_block = Block {
                                 id: 0,
                                 created_at: now,
                                 updated_at: now,
@@ -1256,6 +1283,7 @@ fn insert_mixed_fragment(
                                 document_position: running_position,
                                 ..Default::default()
                             };
+                            apply_block_format(&mut extra_block, extra_frag);
                             let created_extra =
                                 uow.create_block(&extra_block, cell_frame_id, -1)?;
                             write_block_state(uow, created_extra.id, xruns, ximages);
-- 
2.43.0


From cb89de7c1c1a493dce5e567de81a178f5694ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:09 +0000
Subject: [PATCH 32/59] fix: extending a selection out of a table cell moved
 the position to the other side of the table

---
 crates/public_api/src/cursor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 6b13343..fca66f3 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -286,7 +286,8 @@ impl TextCursor {
     /// Set the cursor to an absolute position.
     ///
     /// When extending a selection (`KeepAnchor`) across a table boundary,
-    /// the position is snapped to the adjacent block outside the table so
+    /// the endpoint inside the table is snapped to the adjacent block outside
+    /// the table (the anchor too, when the selection started in a cell), so
     /// the entire table is "trapped" inside the selection range. This
     /// mirrors LibreOffice's behaviour: partial table selections from
     /// outside are not allowed; the table is always fully enclosed.
@@ -321,10 +322,10 @@ impl TextCursor {
                 }
                 (None, Some(tc)) => {
                     // Anchor is inside a table, position is outside.
-                    // Snap the position so the table is enclosed.
+                    // Snap the anchor so the table is enclosed.
                     let before = pos < anchor;
                     if let Some(boundary) = self.table_boundary_position(tc.table.id(), !before) {
-                        pos = boundary;
+                        self.data.lock().anchor = boundary;
                     }
                 }
                 _ => {}
-- 
2.43.0


From 7013dc984141a5d7a759b2f0496857d9718ddd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 33/59] fix: pasted table cells of several paragraphs got wrong
 block positions

---
 .../src/use_cases/insert_fragment_uc.rs       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index a8ae185..1d8008c 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -234,6 +234,20 @@ fn collect_all_blocks_with_frame(
     Ok(())
 }
 
+/// List the blocks of a new cell of several blocks in its `child_order`.
+fn set_cell_child_order(
+    uow: &mut Box<dyn InsertFragmentUnitOfWorkTrait>,
+    cell_frame_id: EntityId,
+    cell_blocks: &[(EntityId, String)],
+) -> Result<()> {
+    let mut cell_frame = uow
+        .get_frame(&cell_frame_id)?
+        .ok_or_else(|| anyhow!("Cell frame not found"))?;
+    cell_frame.child_order = cell_blocks.iter().map(|(id, _)| *id as i64).collect();
+    uow.update_frame(&cell_frame)?;
+    Ok(())
+}
+
 /// Index in `frame.child_order` just behind `block_id`. The index of the
 /// block in the whole document is no substitute: one child_order entry
 /// (a table, a sub-frame) can stand for any number of blocks.
@@ -651,6 +665,9 @@ fn insert_table_fragment(
                 current_pos += 1;
                 total_blocks_added += 1;
             }
+            if this_cell_blocks.len() > 1 {
+                set_cell_child_order(uow, cell_frame_id, &this_cell_blocks)?;
+            }
             this_table_cells.push(this_cell_blocks);
 
             let cell = TableCell {
@@ -1318,6 +1335,9 @@ fn insert_mixed_fragment(
                         fmt_background_color: frag_cell.fmt_background_color.clone(),
                     };
                     uow.create_table_cell(&cell, created_table.id, -1)?;
+                    if this_cell_blocks.len() > 1 {
+                        set_cell_child_order(uow, cell_frame_id, &this_cell_blocks)?;
+                    }
                     this_table_cell_blocks.push(this_cell_blocks);
                 }
 
-- 
2.43.0


From 0a96afae8bb25f60ea7f4c247204517345868b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:19 +0000
Subject: [PATCH 34/59] fix: pasting text with tables left the text index of
 the document in disorder

---
 .../src/use_cases/insert_fragment_uc.rs       | 170 +++++-------------
 1 file changed, 42 insertions(+), 128 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 1d8008c..eabfc8b 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -890,16 +890,6 @@ fn build_tail_state(
 }
 
 /// Insert a mixed fragment (both blocks and tables) at the cursor position.
-///
-/// FOLLOW-UP: the rope mirror for this path is not yet wired. Mixed
-/// fragments (paste with BOTH blocks and tables interleaved — e.g.
-/// copying a section that contains prose AND a table) are rare in
-/// practice; existing tests cover the entity tree but the rope is
-/// not updated by this UC. Adding the mirror requires a new helper
-/// `rope_insert_block_after_anchor` (because the byte position right
-/// after a table-anchor sentinel is not directly addressable via the
-/// existing `rope_split_block` API, which targets `Block` markers
-/// only).
 fn insert_mixed_fragment(
     uow: &mut Box<dyn InsertFragmentUnitOfWorkTrait>,
     dto: &InsertFragmentDto,
@@ -1098,28 +1088,16 @@ fn insert_mixed_fragment(
     }
     write_block_state(uow, current_block.id, head_runs, head_images);
 
-    // ── Rope mirror: head ──
-    // Push the new head content into the rope so subsequent block /
-    // table inserts can be placed at a known cursor byte. `last_block_id`
-    // tracks the most recent block to use as a target for table-anchor
-    // insertion (`after = true`).
+    // ── Rope mirror ──
+    // The head's content is replaced right away; the new blocks and tables
+    // follow once `child_order` lists them.
     let store = uow.store();
-    let head_rope_start = store
-        .block_offsets
-        .read()
-        .unwrap()
-        .range_of_block(current_block.id)
-        .map(|(s, _)| s);
-    let mut next_rope_byte_opt = head_rope_start.map(|s| {
-        common::database::rope_helpers::rope_replace_block_content(
-            &store,
-            current_block.id,
-            &head_plain,
-        );
-        s + head_plain.len() as u32
-    });
-    let mut last_block_id: EntityId = current_block.id;
-    let mut last_block_has_content = !head_plain.is_empty();
+    rope_replace_block_content(&store, current_block.id, &head_plain);
+    // The new blocks with their text, in order.
+    let mut rope_blocks: Vec<(EntityId, String)> = Vec::new();
+    // The new tables: how many new blocks come before, and the cells.
+    type CellPayload = Vec<(EntityId, String)>;
+    let mut rope_tables: Vec<(EntityId, usize, Vec<CellPayload>)> = Vec::new();
 
     let mut running_position =
         current_block.document_position + block_char_length(&updated_current, &store) + 1;
@@ -1218,19 +1196,7 @@ fn insert_mixed_fragment(
                 let created_block = uow.create_block(&new_block, frame_id, -1)?;
                 write_block_state(uow, created_block.id, runs, images);
 
-                // ── Rope mirror: middle block ──
-                if let Some(next_rope_byte) = next_rope_byte_opt.as_mut() {
-                    common::database::rope_helpers::rope_insert_block_at(
-                        &store,
-                        *next_rope_byte,
-                        created_block.id,
-                        &frag_block.plain_text,
-                    );
-                    *next_rope_byte += 1 + frag_block.plain_text.len() as u32;
-                    last_block_id = created_block.id;
-                    last_block_has_content = !frag_block.plain_text.is_empty();
-                }
-
+                rope_blocks.push((created_block.id, frag_block.plain_text.clone()));
                 new_child_order_entries.push(created_block.id as i64);
                 total_new_chars += block_text_len;
                 total_blocks_added += 1;
@@ -1368,80 +1334,7 @@ fn insert_mixed_fragment(
                 let created_anchor = uow.create_frame(&anchor_frame, doc_id, -1)?;
                 new_child_order_entries.push(-(created_anchor.id as i64));
 
-                // Splice the anchor into the parent frame's child_order
-                // NOW (rather than after the items loop) so the per-cell
-                // `top_level_frame_end_byte` walks include the
-                // TableAnchor's bytes — otherwise it returns the byte
-                // position BEFORE the sentinel and cells end up spliced
-                // in front of the anchor, corrupting their content
-                // ranges. The post-loop update below is then idempotent
-                // for entries we already added here.
-                {
-                    let parent = uow
-                        .get_frame(&frame_id)?
-                        .ok_or_else(|| anyhow!("Parent frame not found"))?;
-                    let neg_anchor = -(created_anchor.id as i64);
-                    if !parent.child_order.contains(&neg_anchor) {
-                        let mut updated_parent = parent;
-                        updated_parent.child_order.push(neg_anchor);
-                        updated_parent.updated_at = now;
-                        uow.update_frame(&updated_parent)?;
-                    }
-                }
-
-                // ── Rope mirror: table anchor + cells ──
-                // Insert anchor sentinel relative to `last_block_id`
-                // (after=true except when the head block is still
-                // empty — same fix as the empty-target case in
-                // `insert_table_fragment`). Cells go at
-                // `top_level_frame_end_byte` for the parent frame, in
-                // the same per-cell shape as `insert_table_fragment`.
-                if next_rope_byte_opt.is_some() {
-                    let after = last_block_id != current_block.id || last_block_has_content;
-                    common::database::rope_helpers::rope_insert_table_anchor(
-                        &store,
-                        created_table.id,
-                        last_block_id,
-                        after,
-                    );
-                    for cell_blocks in &this_table_cell_blocks {
-                        let mut iter = cell_blocks.iter();
-                        if let Some((first_id, first_text)) = iter.next() {
-                            let pos = common::database::rope_helpers::top_level_frame_end_byte(
-                                &store, frame_id,
-                            );
-                            common::database::rope_helpers::rope_insert_block_at(
-                                &store, pos, *first_id, first_text,
-                            );
-                            let mut prev_id = *first_id;
-                            let mut prev_byte_len = first_text.len() as u32;
-                            for (extra_id, extra_text) in iter {
-                                common::database::rope_helpers::rope_split_block(
-                                    &store,
-                                    prev_id,
-                                    prev_byte_len,
-                                    *extra_id,
-                                );
-                                if !extra_text.is_empty() {
-                                    common::database::rope_helpers::rope_insert_in_block(
-                                        &store, *extra_id, 0, extra_text,
-                                    );
-                                }
-                                prev_id = *extra_id;
-                                prev_byte_len = extra_text.len() as u32;
-                            }
-                        }
-                    }
-                    // The anchor + cells together extend to
-                    // `top_level_frame_end_byte` of the parent frame.
-                    // Cursor advances past them so the next block
-                    // (or tail) lands AFTER all table-related bytes.
-                    if let Some(next_rope_byte) = next_rope_byte_opt.as_mut() {
-                        *next_rope_byte = common::database::rope_helpers::top_level_frame_end_byte(
-                            &store, frame_id,
-                        );
-                    }
-                }
+                rope_tables.push((created_table.id, rope_blocks.len(), this_table_cell_blocks));
             }
         }
     }
@@ -1504,16 +1397,7 @@ fn insert_mixed_fragment(
         tail_text_len = tail_text_length;
         write_block_state(uow, created_tail.id, tail_runs, tail_images);
 
-        // ── Rope mirror: tail block ──
-        if let Some(next_rope_byte) = next_rope_byte_opt {
-            common::database::rope_helpers::rope_insert_block_at(
-                &store,
-                next_rope_byte,
-                created_tail.id,
-                &tail_plain,
-            );
-        }
-
+        rope_blocks.push((created_tail.id, tail_plain));
         new_child_order_entries.push(created_tail.id as i64);
         total_blocks_added += 1;
     }
@@ -1533,6 +1417,36 @@ fn insert_mixed_fragment(
         uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
     uow.update_frame(&updated_frame)?;
 
+    // ── Rope mirror: blocks, then table anchors, then cells ──
+    // The cells go at the end of the top-level frame, as in `insert_table`.
+    let mut chain: Vec<EntityId> = vec![current_block.id];
+    let mut prev_len = head_plain.len() as u32;
+    for (id, text) in &rope_blocks {
+        rope_split_block(&store, chain[chain.len() - 1], prev_len, *id);
+        if !text.is_empty() {
+            rope_insert_in_block(&store, *id, 0, text);
+        }
+        prev_len = text.len() as u32;
+        chain.push(*id);
+    }
+    for (table_id, blocks_before, _) in rope_tables.iter().rev() {
+        rope_insert_table_anchor(&store, *table_id, chain[*blocks_before], true);
+    }
+    for cell_blocks in rope_tables.iter().flat_map(|(_, _, cells)| cells) {
+        let Some((first_id, first_text)) = cell_blocks.first() else {
+            continue;
+        };
+        let pos = top_level_frame_end_byte(&store, frame_id);
+        rope_insert_block_at(&store, pos, *first_id, first_text);
+        for pair in cell_blocks.windows(2) {
+            let ((prev_id, prev_text), (extra_id, extra_text)) = (&pair[0], &pair[1]);
+            rope_split_block(&store, *prev_id, prev_text.len() as u32, *extra_id);
+            if !extra_text.is_empty() {
+                rope_insert_in_block(&store, *extra_id, 0, extra_text);
+            }
+        }
+    }
+
     // `original_current_char_length` was captured at the top of the
     // function — the rope has since been overwritten by the head update.
     let original_next_pos = current_block.document_position + original_current_char_length + 1;
-- 
2.43.0


From ace4cc18a66f9d986be3bece166c01b4579f2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:29 +0000
Subject: [PATCH 35/59] fix: imported tables had no column widths

---
 crates/document_io/src/use_cases/import_html_uc.rs     | 2 +-
 crates/document_io/src/use_cases/import_markdown_uc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 1e6d724..5399d95 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -290,7 +290,7 @@ impl LongOperation for ImportHtmlUseCase {
                     let table = Table {
                         rows: num_rows,
                         columns: num_cols,
-                        column_widths: vec![],
+                        column_widths: vec![0; num_cols as usize],
                         ..Table::default()
                     };
                     let created_table = uow.create_table(&table, doc_id, -1)?;
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index cb6e719..9dd694d 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -273,7 +273,7 @@ fn import_parsed_elements(
                 let table = Table {
                     rows: num_rows,
                     columns: num_cols,
-                    column_widths: vec![],
+                    column_widths: vec![0; num_cols as usize],
                     ..Table::default()
                 };
                 let created_table = uow.create_table(&table, doc_id, -1)?;
-- 
2.43.0


From 61f72eeae4a1b7f3895f7c8f1182985ed8fbc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:02 +0000
Subject: [PATCH 36/59] fix: a new document counted no block

---
 crates/public_api/src/inner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index ead96b9..5764e6f 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -336,7 +336,11 @@ impl TextDocumentInner {
         let doc = document_commands::create_document(
             &ctx,
             Some(stack_id),
-            &CreateDocumentDto::default(),
+            // The block created below is the document's first one.
+            &CreateDocumentDto {
+                block_count: 1,
+                ..Default::default()
+            },
             root.id,
             -1,
         )?;
-- 
2.43.0


From 148ed44a3b50e7992255b8b92f19463a7b818213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:23 +0000
Subject: [PATCH 37/59] fix: importing left the tables and lists of the old
 document behind

---
 .../src/units_of_work/import_html_uow.rs         |  2 ++
 .../src/units_of_work/import_markdown_uow.rs     |  2 ++
 .../src/units_of_work/import_plain_text_uow.rs   |  2 ++
 .../document_io/src/use_cases/import_html_uc.rs  | 16 ++++++++++++++++
 .../src/use_cases/import_markdown_uc.rs          | 16 ++++++++++++++++
 .../src/use_cases/import_plain_text_uc.rs        | 16 ++++++++++++++++
 6 files changed, 54 insertions(+)

diff --git a/crates/document_io/src/units_of_work/import_html_uow.rs b/crates/document_io/src/units_of_work/import_html_uow.rs
index 461a766..4e7bedc 100644
--- a/crates/document_io/src/units_of_work/import_html_uow.rs
+++ b/crates/document_io/src/units_of_work/import_html_uow.rs
@@ -99,6 +99,8 @@ impl CommandUnitOfWork for ImportHtmlUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
diff --git a/crates/document_io/src/units_of_work/import_markdown_uow.rs b/crates/document_io/src/units_of_work/import_markdown_uow.rs
index 2f8ccc6..dfb145b 100644
--- a/crates/document_io/src/units_of_work/import_markdown_uow.rs
+++ b/crates/document_io/src/units_of_work/import_markdown_uow.rs
@@ -104,6 +104,8 @@ impl CommandUnitOfWork for ImportMarkdownUnitOfWork {
 )]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
diff --git a/crates/document_io/src/units_of_work/import_plain_text_uow.rs b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
index ee2abd4..f908742 100644
--- a/crates/document_io/src/units_of_work/import_plain_text_uow.rs
+++ b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
@@ -96,6 +96,8 @@ impl CommandUnitOfWork for ImportPlainTextUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "List", action = "Remove")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
 impl ImportPlainTextUnitOfWorkTrait for ImportPlainTextUnitOfWork {}
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 5399d95..975b282 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -32,6 +32,8 @@ pub trait ImportHtmlUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
@@ -104,6 +106,20 @@ impl LongOperation for ImportHtmlUseCase {
         for frame_id in &frame_ids {
             uow.remove_frame(frame_id)?;
         }
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
 
         if cancel_flag.load(Ordering::Relaxed) {
             uow.rollback()?;
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index 9dd694d..1bfa5ed 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -33,6 +33,8 @@ pub trait ImportMarkdownUnitOfWorkFactoryTrait: Send + Sync {
 )]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "List", action = "Create", thread_safe = true)]
@@ -91,6 +93,20 @@ fn import_parsed_elements(
     for frame_id in &frame_ids {
         uow.remove_frame(frame_id)?;
     }
+    let table_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Tables,
+    )?;
+    for table_id in &table_ids {
+        uow.remove_table(table_id)?;
+    }
+    let list_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Lists,
+    )?;
+    for list_id in &list_ids {
+        uow.remove_list(list_id)?;
+    }
 
     if cancel_flag.load(Ordering::Relaxed) {
         return Err(anyhow!("Operation was cancelled"));
diff --git a/crates/document_io/src/use_cases/import_plain_text_uc.rs b/crates/document_io/src/use_cases/import_plain_text_uc.rs
index 168e6c4..f9548d6 100644
--- a/crates/document_io/src/use_cases/import_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/import_plain_text_uc.rs
@@ -20,6 +20,8 @@ pub trait ImportPlainTextUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
+#[macros::uow_action(entity = "List", action = "Remove")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
 pub trait ImportPlainTextUnitOfWorkTrait: CommandUnitOfWork {}
@@ -56,6 +58,20 @@ impl ImportPlainTextUseCase {
         for frame_id in &frame_ids {
             uow.remove_frame(frame_id)?;
         }
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
 
         let new_frame = Frame::default();
         let created_frame = uow.create_frame(&new_frame, doc_id, -1)?;
-- 
2.43.0


From 2374c5b603890f58cf4ee7262b17bec71d48893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:08 +0000
Subject: [PATCH 38/59] fix: HTML, Markdown and LaTeX export repeated tables
 and block quotes

---
 .../document_io/src/use_cases/export_html_uc.rs | 17 ++++++++++++++++-
 .../src/use_cases/export_latex_uc.rs            | 17 ++++++++++++++++-
 .../src/use_cases/export_markdown_uc.rs         | 17 ++++++++++++++++-
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index cb67020..8df99c7 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -79,11 +79,26 @@ impl ExportHtmlUseCase {
             }
         }
 
+        // Collect all nested frame IDs (sub-frames and table anchors): they're
+        // rendered where the `child_order` of their parent places them
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
             // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 867fd2c..bc10a92 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -80,11 +80,26 @@ impl ExportLatexUseCase {
             }
         }
 
+        // Collect all nested frame IDs (sub-frames and table anchors): they're
+        // rendered where the `child_order` of their parent places them
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
             // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 44056cf..b172c12 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -78,11 +78,26 @@ impl ExportMarkdownUseCase {
             }
         }
 
+        // Collect all nested frame IDs (sub-frames and table anchors): they're
+        // rendered where the `child_order` of their parent places them
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut output_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
             // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
-- 
2.43.0


From 39a0e1c386c5f8989e84f343c9e36fb1319d1907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:43 +0000
Subject: [PATCH 39/59] fix: imported HTML tables with rows of different
 lengths lost or misplaced cells

---
 crates/common/src/parser_tools/content_parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 690fc98..ae052e0 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -657,6 +657,14 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
 
         collect_rows(table_node, &mut rows, &mut header_rows, false);
 
+        // Rows may differ in length: complete the short ones with empty cells
+        let columns = rows.iter().map(Vec::len).max().unwrap_or(0);
+        for row in &mut rows {
+            row.resize_with(columns, || ParsedTableCell {
+                spans: vec![ParsedSpan::default()],
+            });
+        }
+
         // Tables without explicit <thead> but with <th> cells: treat first row as header
         if header_rows == 0 && !rows.is_empty() {
             header_rows = 1;
-- 
2.43.0


From 6b6c5b6408979076cebee98d491107038351b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 40/59] fix: waiting for a cancelled or failed operation never
 returned

---
 crates/common/src/long_operation.rs | 12 ++++++++++
 crates/public_api/src/operation.rs  | 35 ++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index e763ebd..769f9bb 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -161,6 +161,7 @@ trait OperationHandleTrait: Send {
     fn get_progress(&self) -> OperationProgress;
     fn cancel(&self);
     fn is_finished(&self) -> bool;
+    fn is_executing(&self) -> bool;
 }
 
 /// Lock a mutex, recovering from poisoning by returning the inner value.
@@ -205,6 +206,10 @@ impl OperationHandleTrait for OperationHandle {
             OperationStatus::Completed | OperationStatus::Cancelled | OperationStatus::Failed(_)
         )
     }
+
+    fn is_executing(&self) -> bool {
+        !self._join_handle.is_finished()
+    }
 }
 
 // Manager for long operations
@@ -394,6 +399,13 @@ impl LongOperationManager {
         operations.get(id).map(|handle| handle.is_finished())
     }
 
+    /// Check if an operation is still executing. A cancelled operation keeps
+    /// executing until it notices the cancellation.
+    pub fn is_operation_executing(&self, id: &str) -> Option<bool> {
+        let operations = lock_or_recover(&self.operations);
+        operations.get(id).map(|handle| handle.is_executing())
+    }
+
     /// Remove finished operations from memory
     pub fn cleanup_finished_operations(&self) {
         let mut operations = lock_or_recover(&self.operations);
diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 31770be..d55b7f2 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -3,9 +3,10 @@
 use std::thread;
 use std::time::Duration;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 
 use frontend::AppContext;
+use frontend::common::long_operation::OperationStatus;
 
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
@@ -72,7 +73,31 @@ impl<T> Operation<T> {
 
     /// Returns `true` if the operation has finished (success or failure).
     pub fn is_done(&self) -> bool {
-        (self.result_fn)(&self.state.ctx, &self.id).is_some()
+        self.poll().is_some()
+    }
+
+    /// The outcome of the operation, `None` while it is still executing. An
+    /// operation that failed or was cancelled leaves no result behind: its
+    /// status tells how it ended.
+    fn poll(&self) -> Option<Result<T>> {
+        let status = {
+            let mgr = match self.state.ctx.long_operation_manager.lock() {
+                Ok(mgr) => mgr,
+                Err(e) => e.into_inner(),
+            };
+            if mgr.is_operation_executing(&self.id) == Some(true) {
+                return None;
+            }
+            mgr.get_operation_status(&self.id)
+        };
+        if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            return Some(result);
+        }
+        Some(Err(match status {
+            Some(OperationStatus::Cancelled) => anyhow!("Operation was cancelled"),
+            Some(OperationStatus::Failed(message)) => anyhow!(message),
+            _ => anyhow!("Operation ended without a result"),
+        }))
     }
 
     /// Cancel the operation. No-op if already finished.
@@ -86,7 +111,7 @@ impl<T> Operation<T> {
     /// the typed result. Consumes the handle.
     pub fn wait(self) -> Result<T> {
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return result;
             }
             thread::sleep(Duration::from_millis(50));
@@ -98,7 +123,7 @@ impl<T> Operation<T> {
     pub fn wait_timeout(self, timeout: Duration) -> Option<Result<T>> {
         let deadline = std::time::Instant::now() + timeout;
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.poll() {
                 return Some(result);
             }
             if std::time::Instant::now() >= deadline {
@@ -112,7 +137,7 @@ impl<T> Operation<T> {
     /// Non-blocking: returns the result if the operation has completed,
     /// `None` if still running. Can be called repeatedly.
     pub fn try_result(&mut self) -> Option<Result<T>> {
-        (self.result_fn)(&self.state.ctx, &self.id)
+        self.poll()
     }
 }
 
-- 
2.43.0


From f5132d4a77464ea879bdf0405cf90a07ff6051bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:49 +0000
Subject: [PATCH 41/59] fix: an operation that had done its work was reported
 as cancelled

---
 crates/common/src/long_operation.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index 769f9bb..a6ce861 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -303,20 +303,19 @@ impl LongOperationManager {
 
             let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
 
-            let final_status = if cancel_flag_clone.load(Ordering::Relaxed) {
-                OperationStatus::Cancelled
-            } else {
-                match &operation_result {
-                    Ok(result) => {
-                        // Store the result
-                        if let Ok(serialized) = serde_json::to_string(result) {
-                            let mut results = lock_or_recover(&results_clone);
-                            results.insert(id_clone.clone(), serialized);
-                        }
-                        OperationStatus::Completed
+            // An operation that ran to its end is completed, even when the
+            // cancellation came before this point: its work is done
+            let final_status = match &operation_result {
+                Ok(result) => {
+                    // Store the result
+                    if let Ok(serialized) = serde_json::to_string(result) {
+                        let mut results = lock_or_recover(&results_clone);
+                        results.insert(id_clone.clone(), serialized);
                     }
-                    Err(e) => OperationStatus::Failed(e.to_string()),
+                    OperationStatus::Completed
                 }
+                Err(_) if cancel_flag_clone.load(Ordering::Relaxed) => OperationStatus::Cancelled,
+                Err(e) => OperationStatus::Failed(e.to_string()),
             };
 
             // Emit final status event
-- 
2.43.0


From 75d345e00ab2b404e8b9efaae89270464e634265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 42/59] fix: set_html and set_markdown kept the undo history
 and a text read meanwhile

---
 crates/public_api/src/document.rs | 103 +++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 38 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..2788f30 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -106,6 +106,7 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
+                        inner.invalidate_text_cache();
                         inner.queue_event(DocumentEvent::DocumentReset);
                         inner.check_block_count_changed();
                         inner.reset_cached_child_order();
@@ -194,26 +195,39 @@ impl TextDocument {
     ///
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_markdown(&self, markdown: &str) -> Result<Operation<MarkdownImportResult>> {
-        let mut inner = self.inner.lock();
-        inner.invalidate_text_cache();
-        let dto = frontend::document_io::ImportMarkdownDto {
-            markdown_text: markdown.into(),
+        let (operation, queued) = {
+            let mut inner = self.inner.lock();
+            inner.invalidate_text_cache();
+            let dto = frontend::document_io::ImportMarkdownDto {
+                markdown_text: markdown.into(),
+            };
+            let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_event(DocumentEvent::UndoRedoChanged {
+                can_undo: false,
+                can_redo: false,
+            });
+            let weak = Arc::downgrade(&self.inner);
+            let operation = Operation::new(
+                op_id,
+                &inner.ctx,
+                Box::new(move |ctx, id| {
+                    let result = document_io_commands::get_import_markdown_result(ctx, id)
+                        .ok()
+                        .flatten()?;
+                    // The text may have been read while the import was running
+                    if let Some(inner) = weak.upgrade() {
+                        inner.lock().invalidate_text_cache();
+                    }
+                    Some(Ok(MarkdownImportResult {
+                        block_count: to_usize(result.block_count),
+                    }))
+                }),
+            );
+            (operation, inner.take_queued_events())
         };
-        let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
-        Ok(Operation::new(
-            op_id,
-            &inner.ctx,
-            Box::new(|ctx, id| {
-                document_io_commands::get_import_markdown_result(ctx, id)
-                    .ok()
-                    .flatten()
-                    .map(|r| {
-                        Ok(MarkdownImportResult {
-                            block_count: to_usize(r.block_count),
-                        })
-                    })
-            }),
-        ))
+        crate::inner::dispatch_queued_events(queued);
+        Ok(operation)
     }
 
     /// Export the entire document as Markdown.
@@ -227,26 +241,39 @@ impl TextDocument {
     ///
     /// This is a **long operation**. Returns a typed [`Operation`] handle.
     pub fn set_html(&self, html: &str) -> Result<Operation<HtmlImportResult>> {
-        let mut inner = self.inner.lock();
-        inner.invalidate_text_cache();
-        let dto = frontend::document_io::ImportHtmlDto {
-            html_text: html.into(),
+        let (operation, queued) = {
+            let mut inner = self.inner.lock();
+            inner.invalidate_text_cache();
+            let dto = frontend::document_io::ImportHtmlDto {
+                html_text: html.into(),
+            };
+            let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_event(DocumentEvent::UndoRedoChanged {
+                can_undo: false,
+                can_redo: false,
+            });
+            let weak = Arc::downgrade(&self.inner);
+            let operation = Operation::new(
+                op_id,
+                &inner.ctx,
+                Box::new(move |ctx, id| {
+                    let result = document_io_commands::get_import_html_result(ctx, id)
+                        .ok()
+                        .flatten()?;
+                    // The text may have been read while the import was running
+                    if let Some(inner) = weak.upgrade() {
+                        inner.lock().invalidate_text_cache();
+                    }
+                    Some(Ok(HtmlImportResult {
+                        block_count: to_usize(result.block_count),
+                    }))
+                }),
+            );
+            (operation, inner.take_queued_events())
         };
-        let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
-        Ok(Operation::new(
-            op_id,
-            &inner.ctx,
-            Box::new(|ctx, id| {
-                document_io_commands::get_import_html_result(ctx, id)
-                    .ok()
-                    .flatten()
-                    .map(|r| {
-                        Ok(HtmlImportResult {
-                            block_count: to_usize(r.block_count),
-                        })
-                    })
-            }),
-        ))
+        crate::inner::dispatch_queued_events(queued);
+        Ok(operation)
     }
 
     /// Export the entire document as HTML.
-- 
2.43.0


From 5effacb3f3d5e4a3ea4d792de058f3d4efef434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:20 +0000
Subject: [PATCH 43/59] fix: Markdown export did not escape backticks, angle
 brackets and ampersands

---
 crates/document_io/src/use_cases/export_markdown_uc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index b172c12..75b727a 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -530,7 +530,7 @@ fn escape_markdown(s: &str) -> String {
     for c in s.chars() {
         match c {
             '\\' | '*' | '_' | '{' | '}' | '[' | ']' | '(' | ')' | '#' | '+' | '-' | '.' | '!'
-            | '|' | '~' | '>' => {
+            | '|' | '~' | '>' | '<' | '&' | '`' => {
                 result.push('\\');
                 result.push(c);
             }
-- 
2.43.0


From 5bcaccc4a990b706489af1d5bc7d5ff080022acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:48 +0000
Subject: [PATCH 44/59] fix: importing HTML moved the text beside a block
 behind it

---
 .../common/src/parser_tools/content_parser.rs | 112 ++++++++++--------
 1 file changed, 65 insertions(+), 47 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index ae052e0..7832294 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -819,52 +819,51 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                         );
                     }
                 } else if is_block_tag && tag != "br" {
-                    // Start collecting spans for a new block.
-                    // Use a temporary buffer so that nested block-level
-                    // elements (e.g. sub-lists inside <li>) are collected
-                    // separately and appended *after* the parent block.
+                    // Start collecting spans for a new block. Nested
+                    // block-level elements (e.g. sub-lists inside <li>)
+                    // split it: the text before them, they, the text after.
+                    let is_list_item = tag == "li";
+                    let template = ParsedBlock {
+                        spans: Vec::new(),
+                        heading_level,
+                        list_style: if is_list_item {
+                            new_list_style.clone()
+                        } else {
+                            None
+                        },
+                        list_indent: if is_list_item {
+                            new_list_depth.saturating_sub(1)
+                        } else {
+                            0
+                        },
+                        is_code_block,
+                        code_language,
+                        blockquote_depth: bq_depth,
+                        line_height: css.line_height,
+                        non_breakable_lines: css.non_breakable_lines,
+                        direction: css.direction,
+                        background_color: css.background_color,
+                    };
+                    let first_element = elements.len();
                     let mut spans: Vec<ParsedSpan> = Vec::new();
-                    let mut nested_elements: Vec<ParsedElement> = Vec::new();
                     collect_inline_spans(
                         node,
                         &new_state,
                         &mut spans,
+                        &template,
                         &new_list_style,
-                        &mut nested_elements,
+                        elements,
                         bq_depth,
                         new_list_depth,
                         depth + 1,
                     );
 
-                    let list_style_for_block = if tag == "li" {
-                        new_list_style.clone()
-                    } else {
-                        None
-                    };
-
-                    let list_indent_for_block = if tag == "li" {
-                        new_list_depth.saturating_sub(1)
-                    } else {
-                        0
-                    };
-
-                    if !spans.is_empty() || heading_level.is_some() {
-                        elements.push(ParsedElement::Block(ParsedBlock {
-                            spans,
-                            heading_level,
-                            list_style: list_style_for_block,
-                            list_indent: list_indent_for_block,
-                            is_code_block,
-                            code_language,
-                            blockquote_depth: bq_depth,
-                            line_height: css.line_height,
-                            non_breakable_lines: css.non_breakable_lines,
-                            direction: css.direction,
-                            background_color: css.background_color,
-                        }));
+                    let has_nested = elements.len() > first_element;
+                    if has_text(&spans)
+                        || (!has_nested && (!spans.is_empty() || heading_level.is_some()))
+                    {
+                        elements.push(ParsedElement::Block(ParsedBlock { spans, ..template }));
                     }
-                    // Append nested block elements after the parent block
-                    elements.append(&mut nested_elements);
                 } else if matches!(tag, "ul" | "ol" | "thead" | "tbody" | "tr") {
                     // Container elements: recurse into children
                     for child in node.children() {
@@ -938,14 +937,20 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
         }
     }
 
+    /// Whether the spans hold more than white space.
+    fn has_text(spans: &[ParsedSpan]) -> bool {
+        spans.iter().any(|span| !span.text.trim().is_empty())
+    }
+
     /// Collect inline spans from a block-level element's children.
     /// If a nested block-level element is encountered, it is flushed as a
-    /// separate block.
+    /// separate block, after the text before it (as a block like `template`).
     #[allow(clippy::too_many_arguments)]
     fn collect_inline_spans(
         node: ego_tree::NodeRef<Node>,
         state: &FmtState,
         spans: &mut Vec<ParsedSpan>,
+        template: &ParsedBlock,
         current_list_style: &Option<ListStyle>,
         elements: &mut Vec<ParsedElement>,
         blockquote_depth: u32,
@@ -1014,7 +1019,14 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                             ..Default::default()
                         });
                     } else if nested_block || tag == "table" {
-                        // Flush as separate element
+                        // Flush the text so far, then the nested element
+                        let before = std::mem::take(spans);
+                        if has_text(&before) {
+                            elements.push(ParsedElement::Block(ParsedBlock {
+                                spans: before,
+                                ..template.clone()
+                            }));
+                        }
                         walk_node(
                             child,
                             &new_state,
@@ -1030,6 +1042,7 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                             child,
                             &new_state,
                             spans,
+                            template,
                             current_list_style,
                             elements,
                             blockquote_depth,
@@ -1048,29 +1061,34 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
     // top-level inline elements (e.g. `<b>Bold</b> <em>Italic</em>`)
     // are grouped into a single block instead of becoming separate blocks.
     let mut root_spans: Vec<ParsedSpan> = Vec::new();
+    let template = ParsedBlock {
+        spans: Vec::new(),
+        heading_level: None,
+        list_style: None,
+        list_indent: 0,
+        is_code_block: false,
+        code_language: None,
+        blockquote_depth: 0,
+        line_height: None,
+        non_breakable_lines: None,
+        direction: None,
+        background_color: None,
+    };
     collect_inline_spans(
         *root,
         &initial_state,
         &mut root_spans,
+        &template,
         &None,
         &mut elements,
         0,
         0,
         0,
     );
-    if !root_spans.is_empty() {
+    if has_text(&root_spans) || (elements.is_empty() && !root_spans.is_empty()) {
         elements.push(ParsedElement::Block(ParsedBlock {
             spans: root_spans,
-            heading_level: None,
-            list_style: None,
-            list_indent: 0,
-            is_code_block: false,
-            code_language: None,
-            blockquote_depth: 0,
-            line_height: None,
-            non_breakable_lines: None,
-            direction: None,
-            background_color: None,
+            ..template
         }));
     }
 
-- 
2.43.0


From a1261b21165d325f9a44d3ad7b19a442f52c5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 45/59] fix: an imported table after a block quote went into
 the quote

---
 .../common/src/parser_tools/content_parser.rs | 16 +++-
 .../src/use_cases/import_html_uc.rs           | 77 ++++++++++---------
 .../src/use_cases/import_markdown_uc.rs       | 77 ++++++++++---------
 3 files changed, 93 insertions(+), 77 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 7832294..b9952d0 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -25,6 +25,8 @@ pub struct ParsedTable {
     pub header_rows: usize,
     /// All rows (header + body), each containing cells with their inline spans.
     pub rows: Vec<Vec<ParsedTableCell>>,
+    /// Number of block quotes around the table.
+    pub blockquote_depth: u32,
 }
 
 /// A parsed element: either a block or a table.
@@ -303,6 +305,7 @@ pub fn parse_markdown(markdown: &str) -> Vec<ParsedElement> {
                 elements.push(ParsedElement::Table(ParsedTable {
                     header_rows: table_header_rows,
                     rows: std::mem::take(&mut table_rows),
+                    blockquote_depth,
                 }));
                 in_table = false;
             }
@@ -612,7 +615,10 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
     }
 
     /// Parse a `<table>` element into a ParsedTable.
-    fn parse_table_element(table_node: ego_tree::NodeRef<Node>) -> ParsedTable {
+    fn parse_table_element(
+        table_node: ego_tree::NodeRef<Node>,
+        blockquote_depth: u32,
+    ) -> ParsedTable {
         let mut rows: Vec<Vec<ParsedTableCell>> = Vec::new();
         let mut header_rows: usize = 0;
 
@@ -670,7 +676,11 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
             header_rows = 1;
         }
 
-        ParsedTable { header_rows, rows }
+        ParsedTable {
+            header_rows,
+            rows,
+            blockquote_depth,
+        }
     }
 
     fn walk_node(
@@ -777,7 +787,7 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
 
                 if tag == "table" {
                     // Parse table structure into a ParsedTable
-                    let parsed_table = parse_table_element(node);
+                    let parsed_table = parse_table_element(node, bq_depth);
                     if !parsed_table.rows.is_empty() {
                         elements.push(ParsedElement::Table(parsed_table));
                     }
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 975b282..b5fe370 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -168,45 +168,48 @@ impl LongOperation for ImportHtmlUseCase {
                 return Err(anyhow!("Operation was cancelled"));
             }
 
-            match parsed_element {
-                ParsedElement::Block(parsed_block) => {
-                    let bq_depth = parsed_block.blockquote_depth;
-
-                    // Close blockquote frames if depth decreased
-                    while current_bq_depth > bq_depth && frame_stack.len() > 1 {
-                        let finished = frame_stack.pop().unwrap();
-                        let mut frame_entity = uow
-                            .get_frame(&finished.frame_id)?
-                            .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
-                        frame_entity.child_order = finished.child_order;
-                        uow.update_frame(&frame_entity)?;
-                        current_bq_depth -= 1;
-                        list_grouper.reset();
-                    }
+            let bq_depth = match parsed_element {
+                ParsedElement::Block(parsed_block) => parsed_block.blockquote_depth,
+                ParsedElement::Table(parsed_table) => parsed_table.blockquote_depth,
+            };
+
+            // Close blockquote frames if depth decreased
+            while current_bq_depth > bq_depth && frame_stack.len() > 1 {
+                let finished = frame_stack.pop().unwrap();
+                let mut frame_entity = uow
+                    .get_frame(&finished.frame_id)?
+                    .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
+                frame_entity.child_order = finished.child_order;
+                uow.update_frame(&frame_entity)?;
+                current_bq_depth -= 1;
+                list_grouper.reset();
+            }
 
-                    // Open blockquote frames if depth increased
-                    while current_bq_depth < bq_depth {
-                        let parent_frame_id = frame_stack.last().unwrap().frame_id;
-                        let bq_frame = Frame {
-                            fmt_is_blockquote: Some(true),
-                            fmt_position: Some(FramePosition::InFlow),
-                            parent_frame: Some(parent_frame_id),
-                            ..Frame::default()
-                        };
-                        let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
-                        frame_stack
-                            .last_mut()
-                            .unwrap()
-                            .child_order
-                            .push(-(created_bq.id as i64));
-                        frame_stack.push(FrameState {
-                            frame_id: created_bq.id,
-                            child_order: Vec::new(),
-                        });
-                        current_bq_depth += 1;
-                        list_grouper.reset();
-                    }
+            // Open blockquote frames if depth increased
+            while current_bq_depth < bq_depth {
+                let parent_frame_id = frame_stack.last().unwrap().frame_id;
+                let bq_frame = Frame {
+                    fmt_is_blockquote: Some(true),
+                    fmt_position: Some(FramePosition::InFlow),
+                    parent_frame: Some(parent_frame_id),
+                    ..Frame::default()
+                };
+                let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
+                frame_stack
+                    .last_mut()
+                    .unwrap()
+                    .child_order
+                    .push(-(created_bq.id as i64));
+                frame_stack.push(FrameState {
+                    frame_id: created_bq.id,
+                    child_order: Vec::new(),
+                });
+                current_bq_depth += 1;
+                list_grouper.reset();
+            }
 
+            match parsed_element {
+                ParsedElement::Block(parsed_block) => {
                     let (plain_text, format_runs) =
                         format_runs_from_spans(&parsed_block.spans, parsed_block.is_code_block);
                     let line_len = plain_text.chars().count() as i64;
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index 1bfa5ed..423516a 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -156,45 +156,48 @@ fn import_parsed_elements(
             return Err(anyhow!("Operation was cancelled"));
         }
 
-        match parsed_element {
-            ParsedElement::Block(parsed_block) => {
-                let bq_depth = parsed_block.blockquote_depth;
-
-                // Close blockquote frames if depth decreased
-                while current_bq_depth > bq_depth && frame_stack.len() > 1 {
-                    let finished = frame_stack.pop().unwrap();
-                    let mut frame_entity = uow
-                        .get_frame(&finished.frame_id)?
-                        .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
-                    frame_entity.child_order = finished.child_order;
-                    uow.update_frame(&frame_entity)?;
-                    current_bq_depth -= 1;
-                    list_grouper.reset();
-                }
+        let bq_depth = match parsed_element {
+            ParsedElement::Block(parsed_block) => parsed_block.blockquote_depth,
+            ParsedElement::Table(parsed_table) => parsed_table.blockquote_depth,
+        };
+
+        // Close blockquote frames if depth decreased
+        while current_bq_depth > bq_depth && frame_stack.len() > 1 {
+            let finished = frame_stack.pop().unwrap();
+            let mut frame_entity = uow
+                .get_frame(&finished.frame_id)?
+                .ok_or_else(|| anyhow!("Blockquote frame not found"))?;
+            frame_entity.child_order = finished.child_order;
+            uow.update_frame(&frame_entity)?;
+            current_bq_depth -= 1;
+            list_grouper.reset();
+        }
 
-                // Open blockquote frames if depth increased
-                while current_bq_depth < bq_depth {
-                    let parent_frame_id = frame_stack.last().unwrap().frame_id;
-                    let bq_frame = Frame {
-                        fmt_is_blockquote: Some(true),
-                        fmt_position: Some(FramePosition::InFlow),
-                        parent_frame: Some(parent_frame_id),
-                        ..Frame::default()
-                    };
-                    let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
-                    frame_stack
-                        .last_mut()
-                        .unwrap()
-                        .child_order
-                        .push(-(created_bq.id as i64));
-                    frame_stack.push(FrameState {
-                        frame_id: created_bq.id,
-                        child_order: Vec::new(),
-                    });
-                    current_bq_depth += 1;
-                    list_grouper.reset();
-                }
+        // Open blockquote frames if depth increased
+        while current_bq_depth < bq_depth {
+            let parent_frame_id = frame_stack.last().unwrap().frame_id;
+            let bq_frame = Frame {
+                fmt_is_blockquote: Some(true),
+                fmt_position: Some(FramePosition::InFlow),
+                parent_frame: Some(parent_frame_id),
+                ..Frame::default()
+            };
+            let created_bq = uow.create_frame(&bq_frame, doc_id, -1)?;
+            frame_stack
+                .last_mut()
+                .unwrap()
+                .child_order
+                .push(-(created_bq.id as i64));
+            frame_stack.push(FrameState {
+                frame_id: created_bq.id,
+                child_order: Vec::new(),
+            });
+            current_bq_depth += 1;
+            list_grouper.reset();
+        }
 
+        match parsed_element {
+            ParsedElement::Block(parsed_block) => {
                 let (plain_text, format_runs) =
                     format_runs_from_spans(&parsed_block.spans, parsed_block.is_code_block);
                 let line_len = plain_text.chars().count() as i64;
-- 
2.43.0


From 9f4a49a6f21424d95b64e917db8c37a3aeb66442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:14 +0000
Subject: [PATCH 46/59] fix: HTML and LaTeX export gave neighbouring lists the
 kind of the first

---
 crates/document_io/src/use_cases/export_html_uc.rs  | 3 ++-
 crates/document_io/src/use_cases/export_latex_uc.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index 8df99c7..3577ce2 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -308,7 +308,8 @@ impl ExportHtmlUseCase {
                         None
                     };
 
-                    if b_list.is_some() {
+                    // An item of another list starts a list of its own
+                    if b_list.is_some_and(|l| l.id == list_entity.id) {
                         let inline_html = self.render_inline_html(uow, b)?;
                         list_items.push(format!("<li>{}</li>", inline_html));
                         i += 1;
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index bc10a92..314982e 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -266,7 +266,8 @@ impl ExportLatexUseCase {
                         None
                     };
 
-                    if b_list.is_some() {
+                    // An item of another list starts a list of its own
+                    if b_list.is_some_and(|l| l.id == list_entity.id) {
                         let inline_latex = self.render_inline_latex(uow, b)?;
                         items.push(format!("\\item {}", inline_latex));
                         i += 1;
-- 
2.43.0


From 2eed14bfb74fc916ada049d39a295ba38adc84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:41 +0000
Subject: [PATCH 47/59] fix: Markdown export closed a code block at backticks
 in the code

---
 .../src/use_cases/export_markdown_uc.rs            | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 75b727a..9c9dafe 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -290,11 +290,19 @@ impl ExportMarkdownUseCase {
                 }
             }
 
+            // The fence must be longer than any run of backticks in the code
+            let longest_run = raw_text
+                .split(|c| c != '`')
+                .map(str::len)
+                .max()
+                .unwrap_or(0);
+            let fence = "`".repeat(longest_run.max(2) + 1);
+
             let code_block = if quote_prefix.is_empty() {
-                format!("```{}\n{}\n```", lang, raw_text)
+                format!("{fence}{lang}\n{raw_text}\n{fence}")
             } else {
                 let mut lines = Vec::new();
-                lines.push(format!("{}```{}", quote_prefix, lang));
+                lines.push(format!("{quote_prefix}{fence}{lang}"));
                 for line in raw_text.lines() {
                     lines.push(format!("{}{}", quote_prefix, line));
                 }
@@ -302,7 +310,7 @@ impl ExportMarkdownUseCase {
                 if raw_text.is_empty() {
                     lines.push(quote_prefix.to_string());
                 }
-                lines.push(format!("{}```", quote_prefix));
+                lines.push(format!("{quote_prefix}{fence}"));
                 lines.join("\n")
             };
 
-- 
2.43.0


From 32c98b6148931ee5e9ae4fe0834c1edf3914c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:41 +0000
Subject: [PATCH 48/59] fix: imported HTML tables ignored rowspan and colspan
 and moved the other cells

---
 .../common/src/parser_tools/content_parser.rs | 111 ++++++++++++++----
 .../src/use_cases/import_html_uc.rs           |  14 ++-
 crates/public_api/src/fragment.rs             |   7 +-
 3 files changed, 107 insertions(+), 25 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index b9952d0..d9cf4f1 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -16,6 +16,35 @@ pub struct ParsedSpan {
 #[derive(Debug, Clone)]
 pub struct ParsedTableCell {
     pub spans: Vec<ParsedSpan>,
+    /// Rows and columns the cell takes; 0 at a grid position that another
+    /// cell covers.
+    pub row_span: usize,
+    pub column_span: usize,
+}
+
+impl Default for ParsedTableCell {
+    fn default() -> Self {
+        ParsedTableCell {
+            spans: vec![ParsedSpan::default()],
+            row_span: 1,
+            column_span: 1,
+        }
+    }
+}
+
+impl ParsedTableCell {
+    /// A grid position that belongs to a cell above or to the left.
+    fn covered() -> Self {
+        ParsedTableCell {
+            spans: Vec::new(),
+            row_span: 0,
+            column_span: 0,
+        }
+    }
+
+    pub fn is_covered(&self) -> bool {
+        self.row_span == 0
+    }
 }
 
 /// A parsed table extracted from markdown or HTML.
@@ -46,7 +75,7 @@ impl ParsedElement {
                 ParsedElement::Block(b) => blocks.push(b),
                 ParsedElement::Table(t) => {
                     for row in t.rows {
-                        for cell in row {
+                        for cell in row.into_iter().filter(|cell| !cell.is_covered()) {
                             blocks.push(ParsedBlock {
                                 spans: cell.spans,
                                 heading_level: None,
@@ -332,6 +361,7 @@ pub fn parse_markdown(markdown: &str) -> Vec<ParsedElement> {
             Event::End(TagEnd::TableCell) => {
                 current_row_cells.push(ParsedTableCell {
                     spans: std::mem::take(&mut current_cell_spans),
+                    ..ParsedTableCell::default()
                 });
             }
             // ─── Inline formatting ──────────────────────────────────
@@ -619,20 +649,20 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
         table_node: ego_tree::NodeRef<Node>,
         blockquote_depth: u32,
     ) -> ParsedTable {
-        let mut rows: Vec<Vec<ParsedTableCell>> = Vec::new();
-        let mut header_rows: usize = 0;
+        // The rows as written: (in <thead>, cells)
+        type SourceRow = (bool, Vec<ParsedTableCell>);
+        let mut source: Vec<SourceRow> = Vec::new();
 
         fn collect_rows(
             node: ego_tree::NodeRef<Node>,
-            rows: &mut Vec<Vec<ParsedTableCell>>,
-            header_rows: &mut usize,
+            source: &mut Vec<SourceRow>,
             in_thead: bool,
         ) {
             for child in node.children() {
                 if let Node::Element(el) = child.value() {
                     match el.name() {
-                        "thead" => collect_rows(child, rows, header_rows, true),
-                        "tbody" | "tfoot" => collect_rows(child, rows, header_rows, false),
+                        "thead" => collect_rows(child, source, true),
+                        "tbody" | "tfoot" => collect_rows(child, source, false),
                         "tr" => {
                             let mut cells: Vec<ParsedTableCell> = Vec::new();
                             for td in child.children() {
@@ -645,15 +675,20 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                                     if spans.is_empty() {
                                         spans.push(ParsedSpan::default());
                                     }
-                                    cells.push(ParsedTableCell { spans });
-                                }
-                            }
-                            if !cells.is_empty() {
-                                rows.push(cells);
-                                if in_thead {
-                                    *header_rows += 1;
+                                    let span = |name| {
+                                        td_el
+                                            .attr(name)
+                                            .and_then(|v| v.trim().parse::<usize>().ok())
+                                            .map_or(1, |n| n.clamp(1, 1000))
+                                    };
+                                    cells.push(ParsedTableCell {
+                                        spans,
+                                        row_span: span("rowspan"),
+                                        column_span: span("colspan"),
+                                    });
                                 }
                             }
+                            source.push((in_thead, cells));
                         }
                         _ => {}
                     }
@@ -661,14 +696,50 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
             }
         }
 
-        collect_rows(table_node, &mut rows, &mut header_rows, false);
+        collect_rows(table_node, &mut source, false);
+
+        // Lay the cells out on a grid, past the positions that cells spanning
+        // rows take from above
+        let row_count = source.len();
+        let mut grid: Vec<Vec<Option<ParsedTableCell>>> = vec![Vec::new(); row_count];
+        let mut in_thead = Vec::new();
+        for (r, (thead, cells)) in source.into_iter().enumerate() {
+            in_thead.push(thead);
+            let mut c = 0;
+            for mut cell in cells {
+                let taken = |c: usize| grid[r].get(c).is_some_and(Option::is_some);
+                while taken(c) {
+                    c += 1;
+                }
+                cell.column_span = (1..cell.column_span)
+                    .find(|w| taken(c + w))
+                    .unwrap_or(cell.column_span);
+                cell.row_span = cell.row_span.min(row_count - r);
+                let end = c + cell.column_span;
+                for row in &mut grid[r..r + cell.row_span] {
+                    if row.len() < end {
+                        row.resize(end, None);
+                    }
+                    row[c..end].fill(Some(ParsedTableCell::covered()));
+                }
+                grid[r][c] = Some(cell);
+                c = end;
+            }
+        }
 
         // Rows may differ in length: complete the short ones with empty cells
-        let columns = rows.iter().map(Vec::len).max().unwrap_or(0);
-        for row in &mut rows {
-            row.resize_with(columns, || ParsedTableCell {
-                spans: vec![ParsedSpan::default()],
-            });
+        let columns = grid.iter().map(Vec::len).max().unwrap_or(0);
+        let mut rows: Vec<Vec<ParsedTableCell>> = Vec::new();
+        let mut header_rows: usize = 0;
+        for (mut row, thead) in grid.into_iter().zip(in_thead) {
+            if row.is_empty() {
+                continue;
+            }
+            row.resize(columns, None);
+            rows.push(row.into_iter().map(Option::unwrap_or_default).collect());
+            if thead {
+                header_rows += 1;
+            }
         }
 
         // Tables without explicit <thead> but with <th> cells: treat first row as header
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index b5fe370..0281497 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -321,11 +321,19 @@ impl LongOperation for ImportHtmlUseCase {
 
                     // 2. Create cell frames with content + TableCell entities
                     let current_frame_id = frame_stack.last().unwrap().frame_id;
-                    let total_cells = num_rows * num_cols;
+                    let total_cells = parsed_table
+                        .rows
+                        .iter()
+                        .flatten()
+                        .filter(|cell| !cell.is_covered())
+                        .count() as i64;
                     let mut cell_count: i64 = 0;
 
                     for (r, row) in parsed_table.rows.iter().enumerate() {
                         for (c, cell) in row.iter().enumerate() {
+                            if cell.is_covered() {
+                                continue;
+                            }
                             let cell_frame = Frame::default();
                             let created_cell_frame = uow.create_frame(&cell_frame, doc_id, -1)?;
 
@@ -362,8 +370,8 @@ impl LongOperation for ImportHtmlUseCase {
                             let table_cell = TableCell {
                                 row: r as i64,
                                 column: c as i64,
-                                row_span: 1,
-                                column_span: 1,
+                                row_span: cell.row_span as i64,
+                                column_span: cell.column_span as i64,
                                 cell_frame: Some(created_cell_frame.id),
                                 ..TableCell::default()
                             };
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index cc2ce25..feb0eac 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -713,6 +713,9 @@ fn parsed_elements_to_fragment(parsed: Vec<ParsedElement>) -> DocumentFragment {
                 let mut frag_cells: Vec<FragmentTableCell> = Vec::new();
                 for (row_idx, row) in pt.rows.iter().enumerate() {
                     for (col_idx, cell) in row.iter().enumerate() {
+                        if cell.is_covered() {
+                            continue;
+                        }
                         let cell_elements: Vec<FragmentElement> =
                             cell.spans.iter().map(span_to_fragment_element).collect();
                         let cell_text: String =
@@ -721,8 +724,8 @@ fn parsed_elements_to_fragment(parsed: Vec<ParsedElement>) -> DocumentFragment {
                         frag_cells.push(FragmentTableCell {
                             row: row_idx,
                             column: col_idx,
-                            row_span: 1,
-                            column_span: 1,
+                            row_span: cell.row_span,
+                            column_span: cell.column_span,
                             blocks: vec![FragmentBlock {
                                 plain_text: cell_text,
                                 elements: cell_elements,
-- 
2.43.0


From 67e2f44b1c7ef4ab58eae948060fdd3695c44705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:33 +0000
Subject: [PATCH 49/59] fix: removing a selection over table cells misplaced
 the caret and could drop the table or every paragraph

---
 .../src/use_cases/delete_text_uc.rs           | 51 ++++++++++++++++---
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index dd5538b..410de48 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -263,6 +263,12 @@ fn execute_delete(
             }
         }
 
+        // Where the blocks end before the cells are emptied
+        let block_ends: std::collections::HashMap<EntityId, i64> = blocks
+            .iter()
+            .map(|b| (b.id, b.document_position + block_char_length(b, &store)))
+            .collect();
+
         for cf_id in &affected_cell_frames {
             let frame = uow
                 .get_frame(cf_id)?
@@ -319,8 +325,9 @@ fn execute_delete(
                     let blk_opts = uow.get_block_multi(&blk_ids)?;
                     for b in blk_opts.into_iter().flatten() {
                         table_min_pos = table_min_pos.min(b.document_position);
-                        table_max_pos =
-                            table_max_pos.max(b.document_position + block_char_length(&b, &store));
+                        if let Some(block_end) = block_ends.get(&b.id) {
+                            table_max_pos = table_max_pos.max(*block_end);
+                        }
                     }
                 }
             }
@@ -404,6 +411,25 @@ fn execute_delete(
         let last_is_partial =
             last_non_cell.is_some_and(|b| end < b.document_position + block_char_length(b, &store));
 
+        // The block that holds the caret afterwards, and the offset in it: the
+        // first emptied cell, or what is left of the first block. When the
+        // selection takes every block outside the cells, the first one stays,
+        // emptied.
+        let start_cell = block_to_cell_frame
+            .get(&start_block.id)
+            .filter(|cf| uow.get_frame(cf).ok().flatten().is_some());
+        let (caret_block, caret_offset) = if let Some(cf) = start_cell {
+            let cell_blocks = uow.get_frame_relationship(cf, &FrameRelationshipField::Blocks)?;
+            (cell_blocks.first().copied(), 0)
+        } else if first_is_partial {
+            let offset = first_non_cell.map_or(0, |b| start - b.document_position);
+            (first_id, offset)
+        } else if last_is_partial {
+            (last_id, 0)
+        } else {
+            (first_id, 0)
+        };
+
         for block in &blocks {
             let block_start = block.document_position;
             let block_end = block_start + block_char_length(block, &store);
@@ -431,6 +457,9 @@ fn execute_delete(
                 let chars_removed_this =
                     delete_char_range_in_block(uow, block, local_char_start, local_char_end)?;
                 total_chars_removed += chars_removed_this;
+            } else if Some(block.id) == caret_block {
+                total_chars_removed += block_char_length(block, &store);
+                clear_block(uow, block, now)?;
             } else {
                 total_chars_removed += block_char_length(block, &store);
                 drop_block_runs_and_images(uow.as_ref(), block.id);
@@ -525,7 +554,7 @@ fn execute_delete(
             }
         }
 
-        let remaining_block_count = {
+        let remaining_blocks = {
             let get_tcf = |table_id: &EntityId| -> anyhow::Result<Vec<EntityId>> {
                 let cids = uow.get_table_relationship(table_id, &TableRelationshipField::Cells)?;
                 let cs = uow.get_table_cell_multi(&cids)?;
@@ -540,9 +569,19 @@ fn execute_delete(
                 &frame_id,
             )?;
             let opts = uow.get_block_multi(&candidate_ids)?;
-            opts.into_iter().flatten().count()
+            opts.into_iter().flatten().collect::<Vec<Block>>()
         };
-        if remaining_block_count == 0 {
+        let new_position = remaining_blocks
+            .iter()
+            .position(|b| Some(b.id) == caret_block)
+            .map_or(0, |i| {
+                let before = remaining_blocks[..i].iter();
+                caret_offset
+                    + before
+                        .map(|b| block_char_length(b, &store) + 1)
+                        .sum::<i64>()
+            });
+        if remaining_blocks.is_empty() {
             let empty_block = Block {
                 document_position: 0,
                 ..Block::default()
@@ -588,7 +627,7 @@ fn execute_delete(
 
         return Ok((
             DeleteTextResultDto {
-                new_position: start,
+                new_position,
                 deleted_text: String::new(),
             },
             snapshot,
-- 
2.43.0


From 031f70ce71d86cbc03d1d300436cadaa04a0633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 50/59] fix: deleting a whole document with a table left a list
 behind

---
 .../document_editing/src/use_cases/delete_text_uc.rs   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 410de48..ae5fa0d 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -413,8 +413,8 @@ fn execute_delete(
 
         // The block that holds the caret afterwards, and the offset in it: the
         // first emptied cell, or what is left of the first block. When the
-        // selection takes every block outside the cells, the first one stays,
-        // emptied.
+        // selection takes all of its blocks outside the cells, the first one
+        // stays, emptied, unless nothing else does.
         let start_cell = block_to_cell_frame
             .get(&start_block.id)
             .filter(|cf| uow.get_frame(cf).ok().flatten().is_some());
@@ -427,7 +427,11 @@ fn execute_delete(
         } else if last_is_partial {
             (last_id, 0)
         } else {
-            (first_id, 0)
+            let others_stay = blocks.iter().any(|b| match block_to_cell_frame.get(&b.id) {
+                Some(cf) => uow.get_frame(cf).ok().flatten().is_some(),
+                None => block_ends[&b.id] < start || b.document_position >= end,
+            });
+            (first_id.filter(|_| others_stay), 0)
         };
 
         for block in &blocks {
-- 
2.43.0


From 1c46028c8ab9597c1116a4fe8591a341c0e607ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 51/59] fix: Markdown export wrote link targets that do not
 parse

---
 .../src/use_cases/export_markdown_uc.rs       | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 9c9dafe..a2555f9 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -418,7 +418,7 @@ impl ExportMarkdownUseCase {
                 formatted = format!("*{}*", formatted);
             }
             if let Some(ref href) = elem.fmt_anchor_href {
-                formatted = format!("[{}]({})", formatted, href);
+                formatted = format!("[{}]({})", formatted, link_destination(href));
             }
 
             inline_md.push_str(&formatted);
@@ -533,6 +533,23 @@ fn prefix_lines(text: &str, prefix: &str) -> String {
         .join("\n")
 }
 
+/// A link destination; in angle brackets when it holds blanks or parentheses,
+/// which would end a bare one.
+fn link_destination(href: &str) -> String {
+    let mut result = String::with_capacity(href.len());
+    for c in href.chars() {
+        if matches!(c, '\\' | '<' | '>' | '&') {
+            result.push('\\');
+        }
+        result.push(c);
+    }
+    if href.is_empty() || href.contains([' ', '(', ')', '<']) {
+        format!("<{result}>")
+    } else {
+        result
+    }
+}
+
 fn escape_markdown(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
     for c in s.chars() {
-- 
2.43.0


From c4e998035d425e94470a7ff64bca0d04d6681788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:04 +0000
Subject: [PATCH 52/59] fix: an edit set the modified flag without a
 ModificationChanged event

---
 crates/public_api/src/document.rs | 5 +----
 crates/public_api/src/inner.rs    | 7 +++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 2788f30..b57e8d4 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -889,10 +889,7 @@ impl TextDocument {
     pub fn set_modified(&self, modified: bool) {
         let queued = {
             let mut inner = self.inner.lock();
-            if inner.modified != modified {
-                inner.modified = modified;
-                inner.queue_event(DocumentEvent::ModificationChanged(modified));
-            }
+            inner.modified = modified;
             inner.take_queued_events()
         };
         crate::inner::dispatch_queued_events(queued);
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 5764e6f..9931544 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -57,6 +57,8 @@ pub(crate) struct TextDocumentInner {
     pub root_id: EntityId,
     pub document_id: EntityId,
     pub modified: bool,
+    /// The flag as last told by a `ModificationChanged` event.
+    pub announced_modified: bool,
 
     // Cursor tracking
     pub cursors: Vec<Weak<Mutex<CursorData>>>,
@@ -168,6 +170,10 @@ impl TextDocumentInner {
     /// should release the lock and then invoke callbacks via
     /// [`dispatch_queued_events`].
     pub fn take_queued_events(&mut self) -> QueuedEvents {
+        if self.modified != self.announced_modified {
+            self.announced_modified = self.modified;
+            self.queue_event(DocumentEvent::ModificationChanged(self.modified));
+        }
         if self.callback_cursor >= self.pending_events.len() {
             return Vec::new();
         }
@@ -385,6 +391,7 @@ impl TextDocumentInner {
             root_id: root.id,
             document_id: doc.id,
             modified: false,
+            announced_modified: false,
             cursors: Vec::new(),
             pending_events: Vec::new(),
             callbacks: Vec::new(),
-- 
2.43.0


From 624465878a565085ede1659c1fc9abac6e6c794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:04 +0000
Subject: [PATCH 53/59] fix: replacing a selection of several paragraphs and
 inserting a list item changed the flow without an event

---
 crates/public_api/src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index fca66f3..3900144 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -157,7 +157,7 @@ impl TextCursor {
             blocks_affected,
         });
         inner.check_block_count_changed();
-        if flow_may_change {
+        if flow_may_change || removed > 0 {
             inner.check_flow_changed();
         }
         self.queue_undo_redo_event(inner)
@@ -1744,7 +1744,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                true,
             )
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 5704d5fdd7afc7d6d11f0c6d92b09ee4773589a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:42 +0000
Subject: [PATCH 54/59] fix: closing an edit block made undo available without
 an event

---
 crates/public_api/src/cursor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 3900144..edcff41 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2031,8 +2031,12 @@ impl TextCursor {
 
     /// End the current edit block.
     pub fn end_edit_block(&self) {
-        let inner = self.doc.lock();
-        undo_redo_commands::end_composite(&inner.ctx);
+        let queued = {
+            let mut inner = self.doc.lock();
+            undo_redo_commands::end_composite(&inner.ctx);
+            self.queue_undo_redo_event(&mut inner)
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     /// Alias for [`begin_edit_block`](Self::begin_edit_block).
-- 
2.43.0


From 1fceae0435a5e18c6e098ecdd3828085cecf43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:42 +0000
Subject: [PATCH 55/59] fix: undo and redo of formats and lists, clearing the
 history and a replace without a match sent no event

---
 crates/public_api/src/document.rs | 57 +++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index b57e8d4..cef94de 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -747,10 +747,10 @@ impl TextDocument {
                 });
                 inner.check_block_count_changed();
                 inner.check_flow_changed();
-                let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
-                let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
-                inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
             }
+            let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
+            let can_redo = undo_redo_commands::can_redo(&inner.ctx, Some(inner.stack_id));
+            inner.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
             (count, inner.take_queued_events())
         };
         crate::inner::dispatch_queued_events(queued);
@@ -874,8 +874,16 @@ impl TextDocument {
 
     /// Clear all undo/redo history.
     pub fn clear_undo_redo(&self) {
-        let inner = self.inner.lock();
-        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        let queued = {
+            let mut inner = self.inner.lock();
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_event(DocumentEvent::UndoRedoChanged {
+                can_undo: false,
+                can_redo: false,
+            });
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     // ── Modified state ───────────────────────────────────────
@@ -1051,6 +1059,9 @@ struct UndoBlockState {
     text_length: i64,
     plain_text: String,
     format: BlockFormat,
+    list: Option<u64>,
+    runs: Vec<common::format_runs::FormatRun>,
+    images: Vec<common::format_runs::ImageAnchor>,
 }
 
 /// Capture the state of all blocks, sorted by document_position.
@@ -1073,6 +1084,21 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
                 text_length,
                 plain_text,
                 format,
+                list: b.list,
+                runs: store
+                    .format_runs
+                    .read()
+                    .unwrap()
+                    .get(&b.id)
+                    .cloned()
+                    .unwrap_or_default(),
+                images: store
+                    .block_images
+                    .read()
+                    .unwrap()
+                    .get(&b.id)
+                    .cloned()
+                    .unwrap_or_default(),
             }
         })
         .collect();
@@ -1137,7 +1163,8 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     let mut new_end: usize = 0;
     let mut blocks_affected: usize = 0;
 
-    let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
+    // (position, length, kind)
+    let mut format_only_changes: Vec<(usize, usize, FormatChangeKind)> = Vec::new();
 
     // Check blocks present in both before and after.
     for after_state in &after {
@@ -1156,10 +1183,20 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
                         + before_state.text_length.max(0) as usize,
                 );
                 new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
-            } else if format_changed {
+            } else {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
-                format_only_changes.push((pos, len));
+                if before_state.runs != after_state.runs
+                    || before_state.images != after_state.images
+                {
+                    format_only_changes.push((pos, len, FormatChangeKind::Character));
+                }
+                if format_changed {
+                    format_only_changes.push((pos, len, FormatChangeKind::Block));
+                }
+                if before_state.list != after_state.list {
+                    format_only_changes.push((pos, len, FormatChangeKind::List));
+                }
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
@@ -1206,11 +1243,11 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     // Emit FormatChanged for blocks where only formatting changed (not content).
-    for (position, length) in format_only_changes {
+    for (position, length, kind) in format_only_changes {
         inner.queue_event(DocumentEvent::FormatChanged {
             position,
             length,
-            kind: FormatChangeKind::Block,
+            kind,
         });
     }
 }
-- 
2.43.0


From d3a7e99ad4130cdfe22149862c0bd5445a55daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:39 +0000
Subject: [PATCH 56/59] fix: undo and redo of list, frame, table and cell
 formats sent no event

---
 crates/public_api/src/document.rs | 66 +++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index cef94de..a96d7bc 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -823,11 +823,13 @@ impl TextDocument {
         let queued = {
             let mut inner = self.inner.lock();
             let before = capture_block_state(&inner);
+            let formats = capture_format_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
+            emit_undo_redo_format_events(&mut inner, &formats);
             inner.check_block_count_changed();
             inner.check_flow_changed();
             let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
@@ -844,11 +846,13 @@ impl TextDocument {
         let queued = {
             let mut inner = self.inner.lock();
             let before = capture_block_state(&inner);
+            let formats = capture_format_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
+            emit_undo_redo_format_events(&mut inner, &formats);
             inner.check_block_count_changed();
             inner.check_flow_changed();
             let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
@@ -1106,6 +1110,68 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
     states
 }
 
+/// The formats of lists, frames, tables and cells, for comparison during
+/// undo/redo.
+struct UndoFormatState {
+    lists: Vec<frontend::list::dtos::ListDto>,
+    frames: Vec<frontend::frame::dtos::FrameDto>,
+    tables: Vec<frontend::table::dtos::TableDto>,
+    cells: Vec<frontend::table_cell::dtos::TableCellDto>,
+}
+
+fn capture_format_state(inner: &TextDocumentInner) -> UndoFormatState {
+    use frontend::commands::{frame_commands, list_commands, table_cell_commands, table_commands};
+    let mut lists = list_commands::get_all_list(&inner.ctx).unwrap_or_default();
+    for l in &mut lists {
+        l.updated_at = l.created_at;
+    }
+    lists.sort_by_key(|l| l.id);
+    let mut frames = frame_commands::get_all_frame(&inner.ctx).unwrap_or_default();
+    for f in &mut frames {
+        f.updated_at = f.created_at;
+        f.blocks.clear();
+        f.child_order.clear();
+    }
+    frames.sort_by_key(|f| f.id);
+    let mut tables = table_commands::get_all_table(&inner.ctx).unwrap_or_default();
+    for t in &mut tables {
+        t.updated_at = t.created_at;
+    }
+    tables.sort_by_key(|t| t.id);
+    let mut cells = table_cell_commands::get_all_table_cell(&inner.ctx).unwrap_or_default();
+    for c in &mut cells {
+        c.updated_at = c.created_at;
+    }
+    cells.sort_by_key(|c| c.id);
+    UndoFormatState {
+        lists,
+        frames,
+        tables,
+        cells,
+    }
+}
+
+/// Emit FormatChanged events for lists, frames, tables and cells that
+/// undo/redo changed, as their setters do.
+fn emit_undo_redo_format_events(inner: &mut TextDocumentInner, before: &UndoFormatState) {
+    let after = capture_format_state(inner);
+    if before.lists != after.lists {
+        inner.queue_event(DocumentEvent::FormatChanged {
+            position: 0,
+            length: 0,
+            kind: FormatChangeKind::List,
+        });
+    }
+    if before.frames != after.frames || before.tables != after.tables || before.cells != after.cells
+    {
+        inner.queue_event(DocumentEvent::FormatChanged {
+            position: 0,
+            length: 0,
+            kind: FormatChangeKind::Block,
+        });
+    }
+}
+
 /// Build the full document text from sorted block states (joined with newlines).
 fn build_doc_text(states: &[UndoBlockState]) -> String {
     states
-- 
2.43.0


From 2f02ee0cf4e21f2d5cacdee4274faa107fdf836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 57/59] hook: progress reports of long operations can be held
 up (cfg sx_hooks)

---
 crates/common/src/long_operation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index a6ce861..948197b 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -144,6 +144,12 @@ impl OperationProgress {
     }
 }
 
+/// Verification hook: called in the operation's thread with every progress
+/// report, before the report is passed on.
+#[allow(unexpected_cfgs)]
+#[cfg(sx_hooks)]
+pub static PROGRESS_HOOK: Mutex<Option<fn(f32)>> = Mutex::new(None);
+
 // Trait that long operations must implement
 pub trait LongOperation: Send + 'static {
     type Output: Send + Sync + 'static + serde::Serialize;
@@ -284,6 +290,14 @@ impl LongOperationManager {
                 let event_hub_opt = event_hub_opt.clone();
                 let id_for_cb = id_clone.clone();
                 Box::new(move |prog: OperationProgress| {
+                    #[allow(unexpected_cfgs)]
+                    #[cfg(sx_hooks)]
+                    {
+                        let hook = *lock_or_recover(&PROGRESS_HOOK);
+                        if let Some(hook) = hook {
+                            hook(prog.percentage);
+                        }
+                    }
                     *lock_or_recover(&progress) = prog.clone();
                     if let Some(event_hub) = &event_hub_opt {
                         let payload = serde_json::json!({
-- 
2.43.0


From ecfe68a24e471c6e899deb338436871afacb6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 58/59] fix: text read during a cancelled import stayed

---
 crates/public_api/src/document.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index a96d7bc..af40ff2 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -212,13 +212,14 @@ impl TextDocument {
                 op_id,
                 &inner.ctx,
                 Box::new(move |ctx, id| {
-                    let result = document_io_commands::get_import_markdown_result(ctx, id)
-                        .ok()
-                        .flatten()?;
-                    // The text may have been read while the import was running
+                    // The text may have been read while the import was running,
+                    // whether it ended with a result or not
                     if let Some(inner) = weak.upgrade() {
                         inner.lock().invalidate_text_cache();
                     }
+                    let result = document_io_commands::get_import_markdown_result(ctx, id)
+                        .ok()
+                        .flatten()?;
                     Some(Ok(MarkdownImportResult {
                         block_count: to_usize(result.block_count),
                     }))
@@ -258,13 +259,14 @@ impl TextDocument {
                 op_id,
                 &inner.ctx,
                 Box::new(move |ctx, id| {
-                    let result = document_io_commands::get_import_html_result(ctx, id)
-                        .ok()
-                        .flatten()?;
-                    // The text may have been read while the import was running
+                    // The text may have been read while the import was running,
+                    // whether it ended with a result or not
                     if let Some(inner) = weak.upgrade() {
                         inner.lock().invalidate_text_cache();
                     }
+                    let result = document_io_commands::get_import_html_result(ctx, id)
+                        .ok()
+                        .flatten()?;
                     Some(Ok(HtmlImportResult {
                         block_count: to_usize(result.block_count),
                     }))
-- 
2.43.0


From 9815a8d124b88ccc83b8d687007c1ae40d1d47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 59/59] fix: moving to the next word stopped after 64
 characters without a word

---
 crates/public_api/src/cursor.rs | 40 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index edcff41..2fb1ffd 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2172,28 +2172,30 @@ impl TextCursor {
                     let max_pos = document_inspection_commands::get_document_stats(&inner.ctx)
                         .map(|s| max_cursor_position(&s))
                         .unwrap_or(0);
-                    let scan_len = max_pos.saturating_sub(pos).min(64);
-                    if scan_len == 0 {
-                        return pos;
-                    }
-                    let dto = frontend::document_inspection::GetTextAtPositionDto {
-                        position: to_i64(pos),
-                        length: to_i64(scan_len),
-                    };
-                    if let Ok(r) =
-                        document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
-                    {
-                        for (i, ch) in r.text.chars().enumerate() {
-                            if ch.is_alphanumeric() || ch == '_' {
-                                // Found start of next word, find its end
-                                let word_pos = pos + i;
-                                drop(inner);
-                                let (_, word_end) = self.find_word_boundaries(word_pos);
-                                return word_end;
+                    // Read in windows: the next word may be far away
+                    let mut from = pos;
+                    while from < max_pos {
+                        let scan_len = (max_pos - from).min(64);
+                        let dto = frontend::document_inspection::GetTextAtPositionDto {
+                            position: to_i64(from),
+                            length: to_i64(scan_len),
+                        };
+                        if let Ok(r) =
+                            document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
+                        {
+                            for (i, ch) in r.text.chars().enumerate() {
+                                if ch.is_alphanumeric() || ch == '_' {
+                                    // Found start of next word, find its end
+                                    let word_pos = from + i;
+                                    drop(inner);
+                                    let (_, word_end) = self.find_word_boundaries(word_pos);
+                                    return word_end;
+                                }
                             }
                         }
+                        from += scan_len;
                     }
-                    pos + scan_len
+                    max_pos.max(pos)
                 } else {
                     end
                 }
-- 
2.43.0

