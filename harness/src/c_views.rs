//! C04: every view of a document tells the same story.
use crate::docs::*;
use crate::ops;
use crate::sx;
use crate::util::*;

fn after_op(kinds: &[usize], menu: &[usize], full: bool) {
    let kind = kinds[sx::pick(kinds.len())];
    let d = build(kind);
    let n = end_of(&d);
    let op = menu[sx::pick(menu.len())];
    let p = sx::range(0, n);
    let q = if full { sx::range(0, n) } else { [p, (p + 2).min(n), 0][sx::pick(3)] };
    let c = sel(&d, q, p);
    if !ops::apply(op, &d, &c) {
        sx::reach(2);
    }
    coherent(&d);
    sx::reach(1);
    d.undo().unwrap();
    coherent(&d);
    observe_doc(&d);
}
const ALL: [usize; 25] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25];
pub fn op_flat() {
    after_op(&[0, 1, 3, 4, 7], &ALL[..19], false)
}
pub fn op_struct() {
    after_op(&[5, 6], &ALL, false)
}
pub fn op_full() {
    after_op(&[0, 1, 3, 4, 5, 6, 7], &ALL, true)
}
/// two operations, then the views at any position
pub fn two() {
    let kind = [0, 3, 5, 6][sx::pick(4)];
    let d = build(kind);
    for _ in 0..2 {
        let op = [0, 1, 4, 10, 16, 17][sx::pick(6)];
        let n = end_of(&d);
        let p = [0, n / 3, n][sx::pick(3)];
        let q = if sx::flag() { (p + 3).min(n) } else { p };
        let c = sel(&d, q, p);
        // a frame inside a table cell: see frame_in_cell
        if op == 16 && c.current_table_cell().is_some() {
            return;
        }
        let _ = ops::apply(op, &d, &c);
        if cfg!(feature = "dbg") {
            dump(&d, ops::NAMES[op]);
        }
    }
    coherent(&d);
    sx::reach(1);
    observe_doc(&d);
}
/// position queries at any position and length
pub fn at() {
    let kind = sx::pick(7);
    let d = if kind == 2 { crate::c_text::stale_doc(sx::pick(5)) } else { build(kind) };
    let n = end_of(&d);
    let p = sx::range(0, n + 2);
    let l = sx::range(0, 4);
    coherent_at(&d, p, l);
    sx::reach(1);
    observe_doc(&d);
}
/// known finding: a frame inserted in a cell of a table that ends the document
pub fn frame_in_cell() {
    let d = plain_doc("ab");
    d.cursor_at(2).insert_table(1, 2).unwrap();
    let p = sx::range(0, end_of(&d));
    let c = d.cursor_at(p);
    let incell = c.current_table_cell().is_some();
    sx::check(c.insert_frame().is_ok(), "insert_frame failed");
    if incell {
        sx::reach(1);
        let n = d.snapshot_flow();
        let mut fl = vec![];
        flat(&n.elements, &mut fl);
        sx::check(fl.len() == d.blocks().len(), "a frame inserted in a table cell is missing from the flow");
    }
    coherent(&d);
    observe_doc(&d);
}
