//! The edit operations of the public API as one symbolic choice.
use crate::sx;
use crate::util::*;
use crate::docs::*;
const DBG: bool = cfg!(feature = "dbg");

pub const N_OPS: usize = 26;
pub const NAMES: [&str; N_OPS] = [
    "insert_text",
    "insert_block",
    "delete_char",
    "delete_previous_char",
    "remove_selected_text",
    "insert_formatted_text",
    "insert_image",
    "insert_fragment(text)",
    "insert_html",
    "insert_markdown",
    "insert_fragment(2 blocks)",
    "set_char_format",
    "merge_char_format",
    "set_block_format",
    "create_list",
    "insert_list",
    "insert_frame",
    "insert_table",
    "replace_text",
    "remove_from_list",
    "insert_row_above",
    "insert_column_after",
    "remove_current_row",
    "remove_current_column",
    "remove_current_table",
    "merge/split",
];

/// Applies operation `op`; `Err` when the API refused it.
pub fn apply(op: usize, d: &TextDocument, c: &TextCursor) -> bool {
    let r: Result<()> = match op {
        0 => c.insert_text(&letters(2)),
        1 => c.insert_block(),
        2 => c.delete_char(),
        3 => c.delete_previous_char(),
        4 => c.remove_selected_text().map(|_| ()),
        5 => {
            let mut t = String::from("\u{e9}");
            t.push(letter());
            c.insert_formatted_text(&t, &fmt_bold())
        }
        6 => c.insert_image("n.png", 5, 6),
        7 => c.insert_fragment(&DocumentFragment::from_plain_text(&letters(2))),
        8 => c.insert_html("<p>h<b>i</b></p><p>j</p>"),
        9 => c.insert_markdown("m *n*\n\no"),
        10 => {
            let mut t = letters(1);
            t.push('\n');
            t.push(letter());
            c.insert_fragment(&DocumentFragment::from_plain_text(&t))
        }
        11 => c.set_char_format(&fmt_italic_size(sx::sym(1, 99) as u32)),
        12 => c.merge_char_format(&fmt_bold()),
        13 => c.set_block_format(&BlockFormat {
            alignment: Some(Alignment::Center),
            heading_level: Some(2),
            ..Default::default()
        }),
        14 => c.create_list(ListStyle::Disc),
        15 => c.insert_list(ListStyle::Decimal),
        16 => c.insert_frame(),
        17 => c.insert_table(1, 2).map(|_| ()),
        18 => {
            // which characters match is free at two places
            for (i, ch) in plain(d).chars().enumerate() {
                if i != 1 && i != 4 {
                    sx::assume(ch != 'b');
                }
            }
            d.replace_text("b", "\u{e9}\u{e9}", true, &FindOptions::default())
            .map(|_| ())
        }
        19 => c.remove_current_block_from_list(),
        20 => c.insert_row_above(),
        21 => c.insert_column_after(),
        22 => c.remove_current_row(),
        23 => c.remove_current_column(),
        24 => c.remove_current_table(),
        25 => c.split_current_cell(1, 2),
        _ => unreachable!(),
    };
    r.is_ok()
}

/// an operation other than insert_image
pub fn pick_op() -> usize {
    let o = sx::pick(N_OPS - 1);
    if o >= 6 { o + 1 } else { o }
}
/// long enough a pause that the next edit starts an undo step of its own
pub fn barrier() {
    sx::advance_ms(10_000);
}

/// dev: coherence after one op on each document kind
pub fn probe() {
    let kind = sx::pick(7);
    let d = build(kind);
    let n = end_of(&d);
    let p = sx::range(0, n);
    let q = sx::range(0, n);
    let op = sx::pick(N_OPS);
    let c = sel(&d, p, q);
    let before = state(&d);
    if DBG { dump(&d, "before"); }
    let ok = apply(op, &d, &c);
    if DBG { dump(&d, "after"); }
    if !ok {
        return;
    }
    let after = state(&d);
    let tag = ["plain", "rich", "image", "list", "empty", "table", "frame"][kind];
    let mut m = String::from(tag);
    m.push_str(" ");
    m.push_str(NAMES[op]);
    if d.can_undo() {
        d.undo().unwrap();
        if DBG { dump(&d, "undone"); }
        check_same(&before, &state(&d), &(m.clone() + " undo"));
        d.redo().unwrap();
        if DBG { dump(&d, "redone"); }
        check_same(&after, &state(&d), &(m.clone() + " redo"));
    }
}
pub fn probe2() {
    let kind = sx::pick(7);
    let d = build(kind);
    let n = end_of(&d);
    let p = sx::range(0, n);
    let q = sx::range(0, n);
    let op = sx::pick(N_OPS);
    let c = sel(&d, p, q);
    if DBG { dump(&d, "before"); }
    let ok = apply(op, &d, &c);
    if DBG { dump(&d, "after"); }
    if !ok {
        return;
    }
    coherent(&d);
}

/// dev: two operations on the plain document, model + coherence
pub fn probe3() {
    let kind = 0;
    let d = build(kind);
    let n = end_of(&d);
    let op1 = sx::pick(6);
    let p = sx::range(0, n);
    match op1 {
        0 => d.cursor_at(p).insert_text("qrstuvwxyz").unwrap(),
        1 => d.cursor_at(p).insert_block().unwrap(),
        2 => d.cursor_at(p).delete_previous_char().unwrap(),
        3 => { d.cursor_at(p).insert_text("qrstuvwxyz").unwrap(); d.cursor_at(p+5).insert_block().unwrap(); }
        4 => { let _ = sel(&d, 0, p).remove_selected_text().unwrap(); },
        _ => d.cursor_at(p).insert_formatted_text("\u{e9}z\u{e9}z\u{e9}z", &fmt_bold()).unwrap(),
    }
    coherent(&d);
    let base = plain(&d);
    let n = end_of(&d);
    let q = sx::range(0, n);
    let a = if sx::flag() { (q + 3).min(n) } else { q };
    let op = sx::pick(N_OPS);
    let c = sel(&d, a, q);
    if DBG { dump(&d, "before"); }
    let ok = apply(op, &d, &c);
    if DBG { dump(&d, "after"); }
    let (s, e) = (a.min(q), a.max(q));
    if ok {
        let mut m = String::from(NAMES[op]);
        m.push_str(": text");
        let exp = match op {
            0 => Some((s, e, "xy", s + 2)),
            1 => Some((s, e, "\n", s + 1)),
            2 => Some((s, if s == e { (s + 1).min(n) } else { e }, "", s)),
            3 => Some((if s == e { s.saturating_sub(1) } else { s }, e, "", if s == e { s.saturating_sub(1) } else { s })),
            4 => Some((s, e, "", s)),
            5 => Some((s, e, "\u{e9}z", s + 2)),
            7 => Some((s, e, "uv", s + 2)),
            10 => Some((s, e, "u\nv", s + 3)),
            _ => None,
        };
        if let Some((s, e, i, pp)) = exp {
            sx::check(plain(&d) == crate::c_text::splice(&base, s, e, i), &m);
            sx::check(c.position() == pp, &(m + " cursor"));
        }
        if op != 16 { coherent(&d); }
    }
}

pub fn probe5() { probe_k(5) }
pub fn probe6() { probe_k(6) }
pub fn probe0() { probe_k(sx::pick(5)) }
pub fn probe_k(kind: usize) {
    let d = build(kind);
    let n = end_of(&d);
    let p = sx::range(0, n);
    let q = sx::range(0, n);
    let op = sx::pick(N_OPS);
    let c = sel(&d, p, q);
    if DBG { dump(&d, "before"); }
    let ok = apply(op, &d, &c);
    if DBG { dump(&d, "after"); }
    if !ok {
        return;
    }
    coherent(&d);
    d.undo().unwrap();
    coherent(&d);
}
