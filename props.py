"""The properties, their checks, and what each check covers.
gen.py writes properties.jsonl and MANIFEST.json from this file."""

COMMON_BOUNDS = "LLVM IR of the whole program executed symbolically; loops run to completion (no unrolling cut), at most 60 M instructions per path"

PROPS = {}


def prop(pid, **k):
    PROPS[pid] = k


prop(
    "C01",
    title="Undo restores, redo reproduces: exactly",
    statement="After any sequence of edits, formats, structural operations and pastes, each undo brings back exactly the document that existed before the undone step (text, blocks and their identities, positions, formats, lists, tables, frames, statistics), and each redo reproduces exactly the document the step had produced, up to fresh internal identifiers. An operation that is refused, or that records no undo step, leaves the document unchanged. Documents with inline images are outside this property.",
    over=["histories", "inputs"],
    qtext="every operation of the editing API at every caret and selection of every document shape, and every history of such operations undone and redone all the way",
    why="Tests undo a handful of operations at fixed positions; the command objects snapshot different parts of the store and the text rope, and only some (operation, position, document shape, order) combinations expose a part that is not restored.",
    files=["crates/common/src/undo_redo.rs", "crates/common/src/snapshot.rs", "crates/common/src/database", "crates/document_editing/src/use_cases", "crates/document_formatting/src/use_cases", "crates/public_api/src/document.rs"],
    mech=[("undo/redo stacks", "crates/common/src/undo_redo.rs"), ("store snapshots and rope images", "crates/common/src/database"), ("per-command undo and redo", "crates/document_editing/src/use_cases")],
    observe=["TextDocument::undo/redo, snapshot_flow, blocks, stats, to_plain_text, TextCursor::char_format/block_format"],
    quick=["undo_op_text", "undo_op_struct", "undo_hist_plain", "undo_hist_table"],
    thorough=["undo_op_full", "undo_hist_plain3", "undo_hist_all2"],
    bounds="25 operations (all editing operations of TextCursor plus replace_text; not insert_image) x 6 document shapes (plain 4 blocks, multi-byte with format runs, list, empty, 2x2 table, nested frame) x every caret x 3 anchors (thorough: every anchor); histories of 2 operations (thorough: 3, and all pairs of 25 operations on 4 shapes) at 3 carets with and without selection, undone and redone twice; document letters, inserted letters and font sizes symbolic",
    labels={"undo_op_text": [1, 2, 3], "undo_op_struct": [1, 2, 3], "undo_hist_plain": [1], "undo_hist_table": [1]},
    maxviol=100000,
    time={"quick": 400, "thorough": 780},
)
prop(
    "C02",
    title="Undo history: typing groups, branching, refusal",
    statement="Consecutive single-character insertions at the caret merge into one undo step exactly while they are adjacent, at most two seconds apart, do not cross a word boundary and stay within 200 characters; a different operation, a moved caret, a pause or a selection replacement starts a new step. An edit block is one step, whatever it contains and however deeply it is nested, and an empty one is no step. A new edit after an undo discards the redo branch; can_undo and can_redo say exactly whether undo and redo will do something; clearing the history forgets every step and leaves the document alone.",
    over=["histories", "inputs", "schedules"],
    qtext="every sequence of up to three typed characters of any kind at any pauses, every nesting of edit blocks, every order of edits, undos and redos",
    why="Merging depends on the clock, on character classes, on positions and on what the previous step was; tests use real pauses and a few fixed strings, so boundary instants, boundary lengths and mixed sequences are never met.",
    files=["crates/common/src/undo_redo.rs", "crates/document_editing/src/use_cases/insert_text_uc.rs", "crates/document_editing/src/use_cases/delete_text_uc.rs", "crates/document_editing/src/undo_redo.rs", "crates/public_api/src/document.rs", "crates/public_api/src/cursor.rs"],
    mech=[("undo stacks, composites, merging", "crates/common/src/undo_redo.rs"), ("merge rules of insertion", "crates/document_editing/src/use_cases/insert_text_uc.rs")],
    observe=["TextDocument::undo/redo/can_undo/can_redo/clear_undo_redo, TextCursor::begin_edit_block/end_edit_block, to_plain_text"],
    quick=["hist_typing2", "hist_typing3", "hist_typing_limit", "hist_deleting", "hist_mixed", "hist_edit_block", "hist_branch", "hist_branch_merge", "hist_clear"],
    thorough=["hist_typing3_full"],
    bounds="2 and 3 insertions of symbolic characters (word, blank, punctuation, digit, multi-byte), each pause a symbolic number of seconds, optional caret moves, selection replacement and format changes between; the 200-character limit approached from 199 to 201, also with multi-byte characters; edit blocks nested up to 2 deep with up to 2 operations inside; undo/redo/edit sequences of 4 steps",
    labels={"hist_typing2": [1, 2, 3], "hist_typing_limit": [1, 2, 3], "hist_deleting": [1], "hist_mixed": [1], "hist_edit_block": [1, 2, 3], "hist_branch": [1, 2], "hist_branch_merge": [1, 2], "hist_clear": [1]},
    time={"quick": 400, "thorough": 780},
)
prop(
    "C03",
    title="A text edit is exactly a splice of the text",
    statement="Inserting text (plain, formatted, or plain-text fragments), splitting a block, deleting a character forwards or backwards, and removing or replacing a selection change the document text exactly as the corresponding splice of the character sequence does, whatever the characters' encoded size, and leave the caret at the end of the inserted text or at the place of the removed text. Character and block counts follow. A selection over table cells empties the cells it touches and leaves every letter outside. Setting plain text yields exactly that text, with CR and CRLF read as line breaks.",
    over=["inputs", "histories"],
    qtext="every caret and selection, every inserted text including multi-byte characters and line breaks, in flat and structured documents, after earlier edits whose position bookkeeping is still pending",
    why="Tests check chosen positions of short ASCII documents; the text lives in a rope addressed by bytes while the API counts characters, and block positions are synced lazily, so errors show only at particular offsets, character widths and edit orders.",
    files=["crates/document_editing/src/use_cases/insert_text_uc.rs", "crates/document_editing/src/use_cases/insert_block_uc.rs", "crates/document_editing/src/use_cases/delete_text_uc.rs", "crates/document_editing/src/use_cases/insert_fragment_uc.rs", "crates/document_editing/src/use_cases/insert_formatted_text_uc.rs", "crates/common/src/database", "crates/document_io/src/use_cases/import_plain_text_uc.rs", "crates/public_api/src/cursor.rs"],
    mech=[("rope edits", "crates/common/src/database"), ("editing use cases", "crates/document_editing/src/use_cases"), ("lazy position cache", "crates/common/src/database")],
    observe=["TextDocument::to_plain_text, stats, TextCursor::position"],
    quick=["edit_flat", "edit_stale", "edit_struct", "edit_across_full", "edit_two", "edit_long", "set_plain", "ins_newline"],
    thorough=["edit_full"],
    bounds="contents are symbolic letters (any of a-z each) or one of 5 character classes of 1-4 bytes; documents of up to 5 blocks and 12 characters (one of about 70 blocks), every caret and selection; every selection over table cells, frames and body text of 4 structured documents; inserted texts of up to 3 symbolic characters; two consecutive edits; set_plain_text of up to 5 symbolic characters over letters, CR, LF and multi-byte",
    labels={},
    time={"quick": 400, "thorough": 780},
)
prop(
    "C04",
    title="All views of a document agree",
    statement="At any moment, whatever edits, structural operations, undo or redo came before, the plain text, the block list, the flow snapshot, the per-block snapshots and fragments, the positional lookups (text, block and range queries by position), block navigation and the statistics all describe the same sequence of blocks and characters. Block positions are contiguous in document order, fragments tile their block, and counts equal what is there.",
    over=["histories", "inputs"],
    qtext="every operation at every caret and selection of every document shape, two-operation histories, and every (position, length) query",
    why="The views read different caches (rope, block offset index, ordering keys, lazily synced positions, format runs); a test that inspects one view after one edit cannot see another one going stale.",
    files=["crates/public_api/src/flow.rs", "crates/public_api/src/text_block.rs", "crates/public_api/src/document.rs", "crates/common/src/database", "crates/common/src/format_runs_query.rs", "crates/document_inspection/src/use_cases"],
    mech=[("block offset index", "crates/common/src/database"), ("flow traversal", "crates/public_api/src/flow.rs"), ("document inspection", "crates/document_inspection/src/use_cases")],
    observe=["TextDocument::snapshot_flow, blocks, block_at, block_at_position, blocks_in_range, text_at, stats; TextBlock::next/previous/position/fragments"],
    quick=["view_op_flat", "view_op_struct", "view_two", "view_at", "view_frame_in_cell"],
    thorough=["view_op_full"],
    bounds="25 operations x 7 document shapes x every caret x 3 anchors (thorough: every anchor); two operations out of 6 at 3 carets on 4 shapes; positions 0..end+2 and lengths 0..4 on 11 documents, 5 of them with pending position updates",
    labels={"view_op_flat": [1], "view_op_struct": [1, 2], "view_two": [1], "view_at": [1]},
    maxviol=100,
    time={"quick": 400, "thorough": 780},
)
prop(
    "C05",
    title="Every cursor follows text edits",
    statement="When text is inserted, deleted or replaced through one cursor (or undone text positions apart, by any edit of the text), every other cursor on the same document keeps its place in the surviving text: positions and anchors before the edit stay, positions after it shift by the change of length, positions inside a removed range move to where it was, and no cursor ends outside the document. Each cursor's selection keeps covering the same surviving characters. The editing cursor itself ends behind its own insertion.",
    over=["inputs", "histories"],
    qtext="every edit at every position and selection, against every position and anchor of a second cursor, in alternating edits of two cursors",
    why="The adjustment is arithmetic on positions that every operation feeds with its own counts (characters against bytes against block separators); a test with one cursor does not see it at all.",
    files=["crates/public_api/src/cursor.rs", "crates/public_api/src/inner.rs", "crates/document_editing/src/use_cases"],
    mech=[("cursor adjustment", "crates/public_api/src/inner.rs"), ("operation results", "crates/document_editing/src/use_cases")],
    observe=["TextCursor::position/anchor/selection_start/selection_end/selected_text of several cursors"],
    quick=["cur_others_flat", "cur_others_struct", "cur_turns"],
    thorough=["cur_others_full"],
    bounds="text edits (insert, formatted insert, block split, deletions both ways, selection removal and replacement, plain-text fragment insertion) at every caret and selection of flat and structured documents of up to 12 characters, against every position/anchor pair of one other cursor (flat) or a sample of anchors (structured); two cursors taking turns for 2 edits. Undo and table removal are outside",
    labels={"cur_others_flat": [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], "cur_others_struct": [1], "cur_turns": [1]},
    time={"quick": 300, "thorough": 780},
)
prop(
    "C06",
    title="Cursor movement and selection follow the text",
    statement="Every cursor movement (character, word, block, line start and end, document start and end, repeated any number of times, with or without keeping the anchor) lands where a reference reading of the text says, never leaves the document, and reports whether it moved. Selecting the word, the block or the document, the selected text, and the at-start/at-end queries describe exactly the range between anchor and position. A caret at the end of a block belongs to that block.",
    over=["inputs"],
    qtext="every movement from every caret with every anchor and repetition count over texts of any mix of letters, blanks, punctuation and multi-byte characters",
    why="Word and block movement are scans over the text with boundary cases at both ends, at empty blocks and at runs of separators; tests fix a handful of texts and counts.",
    files=["crates/public_api/src/cursor.rs", "crates/public_api/src/document.rs", "crates/document_inspection/src/use_cases"],
    mech=[("movement", "crates/public_api/src/cursor.rs"), ("text and block queries", "crates/document_inspection/src/use_cases")],
    observe=["TextCursor::move_position, set_position, select, selected_text, at_*"],
    quick=["cur_moves", "cur_queries", "cur_words", "cur_words_far", "cur_delete"],
    bounds="all MoveOperation values, both modes, counts 0..3, every caret and 3 anchors of documents of up to 5 blocks including empty ones; word movement and word selection over 5 symbolic characters out of letter, digit, blank, punctuation and multi-byte classes; gaps of 1 to 75 characters and words of up to 70 between word moves",
    labels={"cur_moves": [1, 2, 3, 6, 7, 10, 11, 12, 13, 16, 17, 18, 19], "cur_queries": [1], "cur_words": [1, 2], "cur_delete": [1]},
    time={"quick": 200, "thorough": 400},
)
prop(
    "C07",
    title="Character formats apply to exactly the selection",
    statement="Setting or merging a character format over a selection gives every selected character exactly the given attributes (set: family, size, weight, bold, italic, underline, overline, strikeout, spacings, underline style, vertical alignment; merge: the given family, bold, italic, underline, strikeout) on top of the ones it had, and changes no other character, no text, no block and no position; within a block, fragments partition the text, neighbours with equal formats being one fragment. This holds right after arbitrary text edits, across blocks, cells and sub-frames, and for formats applied over formats.",
    over=["inputs", "histories"],
    qtext="every selection in either direction, every pending text edit before it, every attribute subset and value, over every earlier format layout",
    why="Formats are run lists with byte offsets kept beside a rope; the splice that inserts a run has a dozen overlap cases per neighbour, and positions may be pending from earlier edits. Tests format a few whole words of fresh documents.",
    files=["crates/document_formatting/src/use_cases", "crates/common/src/format_runs.rs", "crates/common/src/database/rope_helpers.rs", "crates/public_api/src/cursor.rs"],
    mech=[("set and merge", "crates/document_formatting/src/use_cases/set_text_format_uc.rs"), ("run splicing kernel", "crates/common/src/format_runs.rs")],
    observe=["TextCursor::set_char_format/merge_char_format, TextBlock fragments, char_format at every position, snapshot_flow"],
    quick=["fmt_range_flat", "fmt_range_stale", "fmt_range_struct", "fmt_kernel_splice", "fmt_kernel_insert", "fmt_kernel_delete", "fmt_kernel_split", "fmt_two"],
    thorough=["fmt_three", "fmt_range_full", "fmt_kernel_wide"],
    bounds="every selection (both directions) of flat documents of up to 12 characters and of documents with tables and sub-frames; 4 kinds of pending text edits; up to 2 (thorough 3) formats applied over each other; font sizes and document letters symbolic; the run-list kernel (splice, insert, delete, split) over two runs with fully symbolic byte offsets (quick: up to 16; thorough: 30-bit offsets). Colours, anchors, tooltips are not set by the implementation and are outside",
    labels={"fmt_range_flat": [1, 2], "fmt_range_stale": [1, 2], "fmt_range_struct": [1, 2], "fmt_two": [1], "fmt_kernel_splice": [1], "fmt_kernel_insert": [1], "fmt_kernel_delete": [1], "fmt_kernel_split": [1]},
    time={"quick": 300, "thorough": 780},
)
prop(
    "C08",
    title="Formats stay with their characters through edits",
    statement="Whatever edit is made at whatever position, every surviving character keeps the character format it had: insertions, deletions, block splits and joins, fragment and formatted-text insertion, and text replacement move formats with their characters. Text typed inside a block takes the format of the character before it, text inserted with a format takes exactly that format, and plain text fragments bring the default format. Fragments always partition each block's text.",
    over=["inputs", "histories"],
    qtext="every edit at every caret and selection of every document with format runs",
    why="Formats are byte ranges that every edit must shift, cut or join by exactly the right number of bytes; a wrong shift is invisible in the text and in documents whose runs do not straddle the edit.",
    files=["crates/common/src/format_runs.rs", "crates/document_editing/src/use_cases", "crates/common/src/database/rope_helpers.rs"],
    mech=[("run shifting", "crates/common/src/format_runs.rs"), ("edits", "crates/document_editing/src/use_cases")],
    observe=["TextBlock fragments, snapshot_flow fragments, TextCursor::char_format"],
    quick=["fmt_travel_flat", "fmt_travel_struct", "fmt_travel_two"],
    thorough=["fmt_travel_full"],
    bounds="eight kinds of edit at every caret and selection of documents of up to 12 characters with up to 4 runs, multi-byte characters included; pairs of edits; letters and font sizes symbolic",
    labels={"fmt_travel_flat": [1, 2, 3, 4, 5, 6, 7, 8], "fmt_travel_struct": [1, 2, 3], "fmt_travel_two": [1, 2]},
    time={"quick": 200, "thorough": 780},
)
prop(
    "C09",
    title="Search finds every match, replace changes exactly those",
    statement="find_all returns the leftmost non-overlapping occurrences of the query in the document's text, in cursor positions, under the given options (case, whole word, regular expression); find returns the next occurrence at or behind a position, or backwards the last one that begins before it. replace_text replaces exactly the matches that lie inside one block (or the first of them), keeps every other character with its format, gives the replacement the format of the character before it, returns how many were replaced and is one undo step. An invalid pattern is refused and changes nothing.",
    over=["inputs", "histories"],
    qtext="every text and query over the stated alphabets with every option, start position and replacement, in every document shape and after any pending text edit",
    why="Positions are mapped between bytes, characters, lower-cased text, blocks and pending edits; each mapping is right on ASCII single-block texts with separate matches, which is what tests use.",
    files=["crates/document_search/src/use_cases", "crates/public_api/src/document.rs", "crates/public_api/src/convert.rs"],
    mech=[("matching", "crates/document_search/src/use_cases/search_helpers.rs"), ("replacing", "crates/document_search/src/use_cases/replace_text_uc.rs")],
    observe=["TextDocument::find/find_all/replace_text, blocks, fragments, undo/redo"],
    quick=["se_find", "se_find_case", "se_find_words", "se_regex", "se_bad_regex", "se_replace", "se_replace_struct", "se_replace_opts"],
    thorough=["se_find_full", "se_regex_full", "se_replace_struct_full"],
    bounds="texts of 3-8 symbolic characters over {a,b,A,B} with multi-byte characters and block boundaries; queries of up to 3; case-insensitive search over 6 letters with irregular case mappings; whole words over 7 character classes; 6 (thorough 9) regular expressions over texts of 3 (4) characters, against hand-written matchers; replacement of every substring in documents with tables, sub-frames and pending edits. Replacements contain no line break; empty regex matches are outside",
    labels={"se_find": [1, 2], "se_find_case": [1], "se_find_words": [1, 2], "se_regex": [1, 2], "se_bad_regex": [1], "se_replace": [1, 2, 3], "se_replace_struct": [1, 2, 3], "se_replace_opts": [1, 2, 3]},
    time={"quick": 300, "thorough": 780},
)
prop(
    "C10",
    title="Tables stay rectangular and keep their contents",
    statement="After any sequence of table operations the cells of a table tile its rows and columns exactly: no hole, no overlap, nothing outside. Inserting a row or column shifts what is behind it and stretches merged cells that span across it; removing one shifts back and shrinks them; merging joins the cells of a free rectangle into one that keeps the top-left content, and is refused when an already merged cell reaches into the rectangle; splitting divides a merged cell again. All other cells keep their content, everything around the table stays as it was, and impossible requests are refused without a change. Inserting a table places empty cells next to the caret's block (behind the containing table when the caret is in a cell) with the caret in the first cell; removing it leaves the document as it was before. The caret's cell, the kind of a selection and the cells it covers follow the same grid.",
    over=["histories", "inputs"],
    qtext="every row, column, rectangle, cell and split of tables of several sizes with every kind of merged cell in them, at every caret, and sequences of these operations",
    why="Row, column, merge and split each update the grid on their own; holes and overlaps appear only when one of them meets the spans another left at particular indices, and tests use plain grids or one merge at one place.",
    files=["crates/document_editing/src/use_cases/insert_table_uc.rs", "crates/document_editing/src/use_cases/remove_table_uc.rs", "crates/document_editing/src/use_cases/insert_table_row_uc.rs", "crates/document_editing/src/use_cases/insert_table_column_uc.rs", "crates/document_editing/src/use_cases/remove_table_row_uc.rs", "crates/document_editing/src/use_cases/remove_table_column_uc.rs", "crates/document_editing/src/use_cases/merge_table_cells_uc.rs", "crates/document_editing/src/use_cases/split_table_cell_uc.rs", "crates/public_api/src/cursor.rs", "crates/public_api/src/text_table.rs", "crates/public_api/src/flow.rs"],
    mech=[("row and column operations", "crates/document_editing/src/use_cases/insert_table_row_uc.rs"), ("merging and splitting", "crates/document_editing/src/use_cases/merge_table_cells_uc.rs"), ("cell selections", "crates/public_api/src/flow.rs")],
    observe=["TableSnapshot (cells, spans, texts), TextTable::rows/columns/cell, TextBlock::table_cell, TextCursor::current_table_cell, selection_kind, selected_cells, and the flow around the table"],
    quick=["tb_plain", "tb_merged", "tb_two", "tb_whole", "tb_sel", "tb_foreign", "tb_whole_foreign"],
    thorough=["tb_caret", "tb_full", "tb_three"],
    bounds="tables of 1x2, 1x3, 2x2, 2x3 and 3x3 with symbolic cell texts (one cell with two blocks), each of 6 rectangles merged beforehand (quick: 4); every index of row and column insertion and removal incl. out of range, every rectangle of merging, every split; through every caret at both ends of every cell block; sequences of 2 operations (thorough: 3); insertion at every caret of 6 documents; every selection (anchor and position) over a table with 4 merge states; one operation, and insertion and removal of a whole table, on tables imported from HTML and Markdown, pasted and grown",
    labels={"tb_plain": [1, 2], "tb_merged": [1, 2], "tb_two": [1], "tb_whole": [1], "tb_sel": [1, 2], "tb_foreign": [1, 2], "tb_whole_foreign": [1]},
    time={"quick": 400, "thorough": 780},
)
prop(
    "C11",
    title="Copy and paste carry exactly the selected content",
    statement="Copying a selection takes exactly the selected characters with their character formats, the paragraph breaks among them, the paragraph format and list style of every paragraph whose break is included, and whole tables (grid, spans, cell contents and formats) as soon as the selection reaches out of a cell; it changes nothing. Pasting puts that content at the caret and nowhere else: all text, formats and objects before and behind stay as they were, in the caret's frame or cell, with the caret behind the pasted text; text and tables keep their order; a table pasted in a table fills the cells from the caret's cell on when it fits; pasting over a selection equals removing it first. Undoing a paste restores the document, redoing it gives the same result, and a whole document copied into an empty one gives the same document.",
    over=["inputs", "histories"],
    qtext="every selection of every source document (formats, lists, headings, tables, cells of several paragraphs, merged cells, pending text edits) pasted at every caret of every target",
    why="A fragment is cut and merged by many special cases (first, middle and last paragraph, inline or whole, inside a cell, with tables before or behind); tests paste a few fixed fragments at one place, and mistakes in positions, formats or structure appear only for particular combinations of cut and caret.",
    files=["crates/document_editing/src/use_cases/insert_fragment_uc.rs", "crates/document_inspection/src/use_cases/extract_fragment_uc.rs", "crates/public_api/src/fragment.rs", "crates/public_api/src/cursor.rs", "crates/common/src/parser_tools/fragment_schema.rs"],
    mech=[("copying", "crates/document_inspection/src/use_cases/extract_fragment_uc.rs"), ("pasting", "crates/document_editing/src/use_cases/insert_fragment_uc.rs")],
    observe=["TextCursor::selection, insert_fragment, position; DocumentFragment::to_plain_text/from_document; blocks, fragments, formats, lists and the flow of the target; undo/redo"],
    quick=["fr_flat", "fr_rich", "fr_looks", "fr_over", "fr_tab_text", "fr_tab_cells", "fr_doc"],
    thorough=["fr_full", "fr_over_full", "fr_across", "fr_across_full", "fr_tab_full"],
    bounds="7 source documents of up to 4 paragraphs (plain, formatted runs and paragraph formats, lists, table cells, frames, pending edits) with symbolic characters, selections at every end (quick: 5 starts), in both directions, pasted at every caret of the same document (thorough: of 7 targets); over every selection in 2 lengths (thorough: all); 3 documents with a 2x2 table with formats, a cell of two paragraphs or merged cells, pasted in text, frames, empty documents and cells of 5 targets (quick: 4 x 3 cuts at 4 carets; thorough: all); whole-document copies of 8 documents",
    labels={"fr_flat": [1], "fr_rich": [1], "fr_looks": [1], "fr_over": [1], "fr_tab_text": [1, 2], "fr_tab_cells": [1, 2, 3, 4], "fr_doc": [1]},
    time={"quick": 400, "thorough": 840},
)
prop(
    "C12",
    title="Exports come back when imported; an import replaces everything",
    statement="Exporting a document to HTML or Markdown and importing the result gives the same paragraphs: the same text, whatever characters it is made of; the same bold, italic, strikeout, monospace, link (and, in HTML, underline) on each character; the same heading levels, list kinds, code blocks with their language, quotes and table cells (in HTML also their spans, and the paragraphs' line height, direction, background and line breaking). HTML, Markdown and LaTeX export contain every paragraph of the document, tables, quotes and lists included, exactly once and in order, with every special character of the format escaped. Whatever HTML or Markdown is imported, no letter of its text is lost, doubled or moved, and the document that comes out is coherent. An import (HTML, Markdown, plain text, clear) replaces the whole document: what the document was before leaves no trace in text, blocks, tables, lists, statistics or undo history.",
    over=["inputs", "histories"],
    qtext="every text of up to three arbitrary characters in every paragraph, every combination of character formats and paragraph kinds, every sequence of up to three pieces of HTML or Markdown, every earlier document and edit of it",
    why="Tests export and import a few ordinary documents; escaping, nesting of inline tags, ordering of nested blocks and leftovers of an earlier document show only for particular characters next to each other, particular element orders, or documents that were not empty before.",
    files=["crates/document_io/src/use_cases", "crates/common/src/parser_tools/content_parser.rs", "crates/public_api/src/document.rs"],
    mech=[("exporters", "crates/document_io/src/use_cases"), ("HTML and Markdown parser", "crates/common/src/parser_tools/content_parser.rs"), ("import operations", "crates/public_api/src/document.rs")],
    observe=["TextDocument::to_html/to_markdown/to_latex, set_html/set_markdown/set_plain_text/clear, snapshot_flow, DocumentFragment::from_html/from_markdown"],
    quick=["io_html_text1", "io_html_edge1", "io_md_text2", "io_md_edge1", "io_html_formats", "io_md_formats", "io_html_looks", "io_md_looks", "io_latex", "io_structure_flat", "io_structure_tab", "io_structure_frame", "io_structure_mixed", "io_html_shapes", "io_md_shapes", "io_html_kinds", "io_md_kinds", "io_html_places_edge", "io_md_places", "io_md_places_edge", "io_html_spans", "io_html_code", "io_md_code", "io_html_links2", "io_md_links2", "io_html_spelled", "io_md_spelled", "io_replace_any", "io_html_tokens2", "io_md_tokens2"],
    thorough=["io_html_text2", "io_md_edge2", "io_md_text3", "io_html_formats2", "io_html_tokens3", "io_md_tokens3", "io_replace_op"],
    bounds="texts of 1 symbolic character in HTML and 2 in Markdown (thorough: 2 and 3) drawn from all ASCII and sampled wider ranges; every format of every run of a 6-letter paragraph; any character in every kind of paragraph, in a cell, a quote, a code block and a formatted run; 4 neighbouring paragraphs of every kind; every pair of merges of a 3x3 table; code of 3 pieces; 6 document structures (headings, nested lists, code, table, quote frame, mixtures); 15 pieces of HTML and 12 of Markdown in every sequence of 2 (thorough: 3); 7 earlier documents (thorough: and any of 25 operations on 3 of them). Outside: empty paragraphs and blanks at paragraph edges, `<br>` inside a round trip, Markdown emphasis next to punctuation or blanks, backticks inside code spans, several blocks in one table cell, images, frames that are not quotes, DOCX (external writer and file system)",
    labels={"io_html_formats": [0, 1, 2, 3, 4, 5, 6], "io_md_formats": [0, 1, 2, 4, 5, 6], "io_html_looks": [0, 1, 2, 3], "io_md_looks": [0, 1, 2, 3], "io_structure_flat": [0, 1], "io_structure_tab": [2], "io_structure_frame": [3], "io_structure_mixed": [4, 5], "io_html_shapes": [0, 1, 2, 3, 4, 5], "io_md_shapes": [0, 1, 2, 4, 5], "io_replace_any": [0, 1, 2, 3, 4]},
    time={"quick": 300, "thorough": 780},
)
prop(
    "C14",
    title="Change events tell a listener all that changed, once",
    statement="A listener that follows the events of a document - from poll_events or from an on_change callback, which tell the same events in the same order, each once - is never out of date unknowingly: after every edit, format, structural operation, edit block, undo, redo, replacement of the whole text and change of the modified flag, the flow elements inserted and removed by FlowElementsInserted/Removed (or a DocumentReset) lead from the flow before to the flow after, the last BlockCountChanged gives the number of blocks, UndoRedoChanged and ModificationChanged give what can_undo, can_redo and is_modified say, and where the document's content or any format differs from before, an event says that it changed; for text operations on documents of paragraphs the ContentsChanged and FormatChanged ranges cover exactly the places that need it: text outside them is unchanged and removing and inserting the given numbers of characters leads to the new length. After a subscription ends its callback is not called.",
    over=["inputs", "histories"],
    qtext="every operation at every caret and selection of flat and structured documents, undo and redo of each, and pairs of operations",
    why="Events are assembled by hand in every operation, next to the change and not from it; tests look for one event after one operation, but whether an event is missing, repeated or has the wrong place shows only for particular carets, selections, document shapes and undo steps.",
    files=["crates/public_api/src/events.rs", "crates/public_api/src/inner.rs", "crates/public_api/src/cursor.rs", "crates/public_api/src/document.rs", "crates/public_api/src/flow.rs"],
    mech=[("event queue, callbacks and flow diff", "crates/public_api/src/inner.rs"), ("events of each operation", "crates/public_api/src/cursor.rs"), ("events of undo, redo and document operations", "crates/public_api/src/document.rs")],
    observe=["TextDocument::poll_events, on_change, flow, snapshot_flow, block_count, can_undo, can_redo, is_modified"],
    quick=["ev_flat", "ev_struct"],
    thorough=["ev_two"],
    bounds="26 operations of the editing API (not insert_image), undo, redo, set_plain_text, clear, edit blocks, clear_undo_redo, set_modified and formats of lists, tables, cells and frames, at every caret of 6 document shapes with 3 anchors (2 in structured documents), each undone and redone; pairs of operations in the thorough check. The exact ranges are checked for text operations on documents without tables and frames; elsewhere an event of some range suffices. LongOperation events are outside",
    labels={},
    time={"quick": 400, "thorough": 780},
)
prop(
    "C16",
    title="Lists: membership, numbering and markers",
    statement="Creating a list over a selection puts exactly the selected blocks in one new list, in document order, wherever they are (body, sub-frame, table cell); inserting a list adds one empty item after the caret's block in the same place; adding a block to a list, removing it, and changing a list's format affect exactly that block or list. Every member's item index is its rank among its list's blocks in document order and every list's count is the number of its members; markers are the list style's rendering of the index (decimal, letters, roman, bullets) with the list's prefix and suffix. Text and character formats never change by list operations.",
    over=["inputs", "histories"],
    qtext="every list operation at every caret and selection of every document shape, every pair of them, and every marker style at every index within bounds",
    why="List membership is a relation between blocks and lists that is changed block by block; wrong frames, stale positions and shared lists only show when operations are combined or used inside tables and frames.",
    files=["crates/document_editing/src/use_cases/create_list_uc.rs", "crates/document_editing/src/use_cases/insert_list_uc.rs", "crates/document_editing/src/use_cases/add_block_to_list_uc.rs", "crates/document_editing/src/use_cases/remove_block_from_list_uc.rs", "crates/document_formatting/src/use_cases/set_list_format_uc.rs", "crates/public_api/src/text_list.rs", "crates/public_api/src/text_block.rs"],
    mech=[("list operations", "crates/document_editing/src/use_cases"), ("markers and item index", "crates/public_api/src/text_block.rs")],
    observe=["TextBlock::list/list_item_index, TextList::count/items/item_text, ListInfo in snapshot_flow"],
    quick=["sc_list_flat", "sc_list_struct", "sc_list_two", "sc_list_markers"],
    thorough=["sc_list_full"],
    bounds="six list operations at every caret and 3 anchors of flat and structured documents; pairs of operations; markers of every style, with and without prefix and suffix, for indexes 0..119",
    labels={"sc_list_flat": [1, 2, 3, 4, 5, 6], "sc_list_struct": [1, 2, 3, 4, 5, 6], "sc_list_two": [1, 2, 3, 4, 5, 6, 7], "sc_list_markers": [8]},
    time={"quick": 200, "thorough": 780},
)
prop(
    "C17",
    title="Block, frame, table and cell formats have exact scope",
    statement="Setting a block format changes exactly the given fields of exactly the blocks the selection touches (the caret's block when there is none), setting a frame, table or cell format exactly the given fields of that one object; nothing else in the document changes. Through a split both halves keep the block format of the split block, and joining blocks keeps the first block's format; other blocks keep theirs through every text edit.",
    over=["inputs", "histories"],
    qtext="every field with any value, every selection, in every document shape, after any pending text edit",
    why="The affected blocks are found by position arithmetic over positions that text edits leave pending, with the end of a block and empty blocks as boundary cases; each field is copied by hand in several conversion functions.",
    files=["crates/document_formatting/src/use_cases", "crates/public_api/src/cursor.rs", "crates/public_api/src/convert.rs", "crates/document_editing/src/use_cases/insert_block_uc.rs", "crates/document_editing/src/use_cases/delete_text_uc.rs"],
    mech=[("format use cases", "crates/document_formatting/src/use_cases"), ("DTO conversion", "crates/public_api/src/convert.rs")],
    observe=["TextCursor::block_format, set_frame_format, set_table_format, set_table_cell_format; snapshot_flow"],
    quick=["sc_block_flat", "sc_block_stale", "sc_block_struct", "sc_objects", "sc_block_travel"],
    thorough=["sc_block_full", "sc_block_travel2"],
    bounds="every settable field of BlockFormat, FrameFormat, TableFormat and CellFormat with symbolic numeric values; every selection of flat documents and of documents with tables and frames, after 4 kinds of pending edits; splits and joins at every caret (thorough: pairs of edits). tab_positions and FrameFormat.position are not supported by the implementation and are outside",
    labels={"sc_block_flat": [1], "sc_block_stale": [1], "sc_block_struct": [1], "sc_objects": [1, 2, 3, 4], "sc_block_travel": [1]},
    time={"quick": 200, "thorough": 600},
)
prop(
    "C18",
    title="An import in the background ends, whole or not at all",
    statement="set_html and set_markdown run in a thread of their own. Until it ends, is_done is false, try_result gives nothing and progress stays between 0 and 100 and never goes back; reading the document meanwhile does no harm. However the import ends and whenever it is cancelled, wait returns: with the result, and then the document is the one the same import gives in a fresh document and the undo history is empty; or with an error, only when it was cancelled, and then the document is exactly the one before the import. A cancellation that comes before the document is being built is obeyed. A LongOperationFinished event tells the outcome, and the document can be edited, undone and imported into again.",
    over=["inputs", "schedules"],
    qtext="every point of an import at which it is held up, read and cancelled, for every document it replaces",
    why="Tests wait for imports that nobody disturbs, and a cancellation in a test arrives at whatever point the scheduler picks; here each progress point of the thread is a chosen scheduling point.",
    files=["crates/common/src/long_operation.rs", "crates/public_api/src/operation.rs", "crates/public_api/src/document.rs", "crates/document_io/src/use_cases/import_markdown_uc.rs", "crates/document_io/src/use_cases/import_html_uc.rs", "crates/common/src/database"],
    mech=[("operation threads, status and results", "crates/common/src/long_operation.rs"), ("operation handles", "crates/public_api/src/operation.rs"), ("imports as transactions", "crates/document_io/src/use_cases")],
    observe=["TextDocument::set_html, set_markdown, poll_events; Operation::is_done, try_result, progress, cancel, wait; snapshot_flow, blocks, stats, to_plain_text"],
    quick=["lo_html", "lo_md"],
    thorough=["lo_html_full", "lo_md_full"],
    hook="common::long_operation::PROGRESS_HOOK (cfg sx_hooks): holds an import at a progress report",
    bounds="4 document shapes (thorough: 6, and a second import afterwards), with and without a pending edit, replaced by 3 texts each (list with heading; quote, table and paragraph; empty), held up at any of its progress reports (2 threads, scheduling points: the reports), read, cancelled, both or neither. Cancellation between two reports is seen by the import at the same checks as one at the report before; other interleavings of the two threads, DOCX export and wait_timeout are outside",
    labels={"lo_html": [1, 2, 3], "lo_md": [1, 2, 3]},
    time={"quick": 300, "thorough": 600},
)

NOT_APPLICABLE = []
