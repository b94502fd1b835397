//! Documents of different shapes, built through the public API only.
use crate::util::*;

pub fn fmt_bold() -> TextFormat {
    TextFormat {
        font_bold: Some(true),
        ..Default::default()
    }
}
pub fn fmt_italic_size(n: u32) -> TextFormat {
    TextFormat {
        font_italic: Some(true),
        font_point_size: Some(n),
        ..Default::default()
    }
}

pub fn plain_doc(t: &str) -> TextDocument {
    let d = TextDocument::new();
    d.set_plain_text(t).unwrap();
    d
}

/// a document whose letters `a`..`y` of the pattern are symbolic (any letter each)
pub fn sym_doc(pattern: &str) -> TextDocument {
    let mut t = String::new();
    for ch in pattern.chars() {
        t.push(if ch.is_ascii_lowercase() { letter() } else { ch });
    }
    plain_doc(&t)
}

/// several blocks, multi-byte characters, format runs
pub fn rich_doc() -> TextDocument {
    let d = sym_doc("a\u{e9}bc\n\u{4e2d}\u{1f642}d");
    sel(&d, 1, 3).merge_char_format(&fmt_bold()).unwrap();
    sel(&d, 6, 8).set_char_format(&fmt_italic_size(9)).unwrap();
    d.clear_undo_redo();
    d
}

/// an image between two text runs
pub fn image_doc() -> TextDocument {
    let d = sym_doc("ab\ncd");
    let c = d.cursor_at(1);
    c.insert_image("i.png", 3, 4).unwrap();
    sel(&d, 0, 1).merge_char_format(&fmt_bold()).unwrap();
    d.clear_undo_redo();
    d
}

/// paragraph, 2x2 table with text in the cells, paragraph
pub fn table_doc() -> TextDocument {
    let d = sym_doc("ab\ncd");
    let c = d.cursor_at(2);
    let t = c.insert_table(2, 2).unwrap();
    for (r, k, s) in [(0, 0, "p"), (0, 1, "q"), (1, 0, "r"), (1, 1, "s")] {
        let b = t.cell(r, k).unwrap().blocks();
        let c = d.cursor_at(b[0].position());
        c.insert_text(&letters(nchars(s))).unwrap();
    }
    d.clear_undo_redo();
    d
}

pub fn list_doc() -> TextDocument {
    let d = sym_doc("ab\ncd\nef\ngh");
    sel(&d, 0, 7).create_list(ListStyle::Decimal).unwrap();
    d.clear_undo_redo();
    d
}

pub fn frame_doc() -> TextDocument {
    let d = sym_doc("ab\ncd");
    d.cursor_at(2).insert_frame().unwrap();
    d.clear_undo_redo();
    d
}

pub fn build(kind: usize) -> TextDocument {
    match kind {
        0 => sym_doc("ab\ncd\n\nef"),
        1 => rich_doc(),
        2 => image_doc(),
        3 => list_doc(),
        4 => plain_doc(""),
        5 => table_doc(),
        6 => frame_doc(),
        // nothing but long characters
        7 => plain_doc("a\u{e9}\n\u{4e2d}\u{1f642}\n\u{e9}\u{e9}\nb"),
        _ => unreachable!(),
    }
}

/// largest cursor position
pub fn end_of(d: &TextDocument) -> usize {
    let s = d.stats();
    s.character_count + s.block_count.max(1) - 1
}

pub const TAGS: [&str; 7] = ["plain", "rich", "image", "list", "empty", "table", "frame"];
