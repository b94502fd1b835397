//! C10: tables stay rectangular. Every table operation is compared with a
//! reference grid: cells tile the grid exactly, each operation changes the
//! cells it names and keeps everything else, in the table and around it.
use crate::docs::*;
use crate::ops::barrier;
use crate::sx;
use crate::util::*;
const DBG: bool = cfg!(feature = "dbg");

#[derive(Clone, PartialEq)]
pub struct Cell {
    r: usize,
    c: usize,
    rs: usize,
    cs: usize,
    t: Vec<String>,
}
#[derive(Clone, PartialEq)]
pub struct Grid {
    rows: usize,
    cols: usize,
    cells: Vec<Cell>,
}
impl Grid {
    fn sort(mut self) -> Self {
        self.cells.sort_by_key(|c| (c.r, c.c));
        self
    }
    fn at(&self, r: usize, c: usize) -> Option<&Cell> {
        self.cells.iter().find(|x| x.r <= r && r < x.r + x.rs && x.c <= c && c < x.c + x.cs)
    }
    fn transpose(mut self) -> Self {
        core::mem::swap(&mut self.rows, &mut self.cols);
        for c in &mut self.cells {
            core::mem::swap(&mut c.r, &mut c.c);
            core::mem::swap(&mut c.rs, &mut c.cs);
        }
        self.sort()
    }
    /// None: refused
    fn insert_row(&self, i: usize) -> Option<Grid> {
        if i > self.rows {
            return None;
        }
        let mut g = self.clone();
        let mut covered = vec![false; g.cols];
        for c in &mut g.cells {
            if c.r >= i {
                c.r += 1;
            } else if c.r + c.rs > i {
                c.rs += 1;
                for k in c.c..c.c + c.cs {
                    covered[k] = true;
                }
            }
        }
        for k in 0..g.cols {
            if !covered[k] {
                g.cells.push(Cell { r: i, c: k, rs: 1, cs: 1, t: vec![String::new()] });
            }
        }
        g.rows += 1;
        Some(g.sort())
    }
    fn remove_row(&self, i: usize) -> Option<Grid> {
        if i >= self.rows || self.rows == 1 {
            return None;
        }
        let mut g = self.clone();
        g.cells.retain(|c| !(c.r == i && c.rs == 1));
        for c in &mut g.cells {
            if c.r > i {
                c.r -= 1;
            } else if c.r + c.rs > i {
                c.rs -= 1;
            }
        }
        g.rows -= 1;
        Some(g.sort())
    }
    fn merge(&self, r0: usize, c0: usize, r1: usize, c1: usize) -> Option<Grid> {
        if r0 > r1 || c0 > c1 || r1 >= self.rows || c1 >= self.cols {
            return None;
        }
        for r in r0..=r1 {
            for c in c0..=c1 {
                let x = self.at(r, c).unwrap();
                if x.rs > 1 || x.cs > 1 {
                    return None;
                }
            }
        }
        let mut g = self.clone();
        g.cells.retain(|x| (x.r == r0 && x.c == c0) || x.r < r0 || x.r > r1 || x.c < c0 || x.c > c1);
        for x in &mut g.cells {
            if x.r == r0 && x.c == c0 {
                x.rs = r1 - r0 + 1;
                x.cs = c1 - c0 + 1;
            }
        }
        Some(g.sort())
    }
    fn split(&self, i: usize, sr: usize, sc: usize) -> Option<Grid> {
        let o = self.cells[i].clone();
        if sr < 1 || sc < 1 || sr > o.rs || sc > o.cs || (o.rs == 1 && o.cs == 1) {
            return None;
        }
        let mut g = self.clone();
        g.cells.remove(i);
        let part = |n: usize, k: usize, j: usize| (n / k + usize::from(j < n % k), (n / k) * j + j.min(n % k));
        for a in 0..sr {
            for b in 0..sc {
                let (rs, dr) = part(o.rs, sr, a);
                let (cs, dc) = part(o.cs, sc, b);
                let t = if a == 0 && b == 0 { o.t.clone() } else { vec![String::new()] };
                g.cells.push(Cell { r: o.r + dr, c: o.c + dc, rs, cs, t });
            }
        }
        Some(g.sort())
    }
    /// the smallest rectangle that contains the given one and cuts no cell
    fn closure(&self, mut q: (usize, usize, usize, usize)) -> (usize, usize, usize, usize) {
        loop {
            let o = q;
            for r in o.0..=o.2 {
                for c in o.1..=o.3 {
                    let x = self.at(r, c).unwrap();
                    q = (q.0.min(x.r), q.1.min(x.c), q.2.max(x.r + x.rs - 1), q.3.max(x.c + x.cs - 1));
                }
            }
            if q == o {
                return q;
            }
        }
    }
}

fn find_table<'a>(els: &'a [FlowElementSnapshot], id: usize) -> Option<&'a TableSnapshot> {
    for e in els {
        match e {
            FlowElementSnapshot::Table(t) if t.table_id == id => return Some(t),
            FlowElementSnapshot::Frame(f) => {
                if let Some(t) = find_table(&f.elements, id) {
                    return Some(t);
                }
            }
            _ => {}
        }
    }
    None
}
/// texts of everything in the flow that is not the table
fn around(els: &[FlowElementSnapshot], id: usize, out: &mut Vec<String>) {
    for e in els {
        match e {
            FlowElementSnapshot::Block(b) => out.push(b.text.clone()),
            FlowElementSnapshot::Table(t) => {
                if t.table_id == id {
                    out.push(String::from("<T>"));
                } else {
                    out.push(String::from("<t"));
                    let mut cells: Vec<&CellSnapshot> = t.cells.iter().collect();
                    cells.sort_by_key(|c| (c.row, c.column));
                    for c in cells {
                        for b in &c.blocks {
                            out.push(b.text.clone());
                        }
                    }
                    out.push(String::from("t>"));
                }
            }
            FlowElementSnapshot::Frame(f) => {
                out.push(String::from("<f"));
                around(&f.elements, id, out);
                out.push(String::from("f>"));
            }
        }
    }
}
fn surround(d: &TextDocument, id: usize) -> Vec<String> {
    let mut v = vec![];
    around(&d.snapshot_flow().elements, id, &mut v);
    v
}
/// the table as a grid; fails when the cells do not tile it exactly
fn read(d: &TextDocument, id: usize) -> Grid {
    let f = d.snapshot_flow();
    let Some(s) = find_table(&f.elements, id) else { sx::fail("table is not in the flow") };
    let mut g = Grid { rows: s.rows, cols: s.columns, cells: vec![] };
    let mut n = vec![0usize; s.rows * s.columns];
    for c in &s.cells {
        sx::check(c.row_span >= 1 && c.column_span >= 1, "cell span");
        sx::check(c.row + c.row_span <= s.rows && c.column + c.column_span <= s.columns, "cell outside of the table");
        for r in c.row..c.row + c.row_span {
            for k in c.column..c.column + c.column_span {
                n[r * s.columns + k] += 1;
            }
        }
        sx::check(!c.blocks.is_empty(), "cell without a block");
        g.cells.push(Cell { r: c.row, c: c.column, rs: c.row_span, cs: c.column_span, t: c.blocks.iter().map(|b| b.text.clone()).collect() });
    }
    sx::check(n.iter().all(|k| *k == 1), "cells do not tile the table");
    sx::check(s.column_widths.len() == s.columns, "column_widths does not match the columns");
    g.sort()
}
/// the handles say what the snapshot says
fn handles(d: &TextDocument, id: usize, g: &Grid) {
    let Some(t) = table_of(d, id) else { sx::fail("no table handle in the flow") };
    sx::check(t.rows() == g.rows && t.columns() == g.cols, "TextTable size");
    for r in 0..g.rows + 1 {
        for c in 0..g.cols + 1 {
            let o = g.cells.iter().find(|x| x.r == r && x.c == c);
            match (t.cell(r, c), o) {
                (None, None) => {}
                (Some(x), Some(o)) => {
                    sx::check(x.row() == r && x.column() == c && x.row_span() == o.rs && x.column_span() == o.cs, "TextTableCell");
                    let b: Vec<String> = x.blocks().iter().map(|b| b.text()).collect();
                    sx::check(b == o.t, "TextTableCell::blocks");
                    for b in x.blocks() {
                        match b.table_cell() {
                            Some(k) => sx::check(k.table.id() == id && k.row == r && k.column == c, "TextBlock::table_cell"),
                            None => sx::fail("TextBlock::table_cell is none in a cell"),
                        }
                        for p in [b.position(), b.position() + b.length()] {
                            match d.cursor_at(p).current_table_cell() {
                                Some(k) => sx::check(k.table.id() == id && k.row == r && k.column == c, "current_table_cell"),
                                None => sx::fail("current_table_cell is none in a cell"),
                            }
                        }
                    }
                }
                _ => sx::fail("TextTable::cell"),
            }
        }
    }
}
fn table_in(els: Vec<FlowElement>, id: usize) -> Option<TextTable> {
    for e in els {
        match e {
            FlowElement::Table(t) if t.id() == id => return Some(t),
            FlowElement::Frame(f) => {
                if let Some(t) = table_in(f.flow(), id) {
                    return Some(t);
                }
            }
            _ => {}
        }
    }
    None
}
fn table_of(d: &TextDocument, id: usize) -> Option<TextTable> {
    table_in(d.flow(), id)
}

/// text, table with a letter in each cell (two blocks in one of them), text
fn grid_doc(rows: usize, cols: usize) -> (TextDocument, usize) {
    let d = sym_doc("ab\ncd");
    let t = d.cursor_at(2).insert_table(rows, cols).unwrap();
    for r in 0..rows {
        for k in 0..cols {
            let b = t.cell(r, k).unwrap().blocks();
            let mut s = String::new();
            s.push(letter());
            d.cursor_at(b[0].position()).insert_text(&s).unwrap();
            if r == 0 && k == 1 {
                d.cursor_at(b[0].position() + 1).insert_block().unwrap();
            }
        }
    }
    let id = t.id();
    d.clear_undo_redo();
    barrier();
    (d, id)
}

/// one operation by index; the expected grid (None: refused, unchanged)
fn operate(d: &TextDocument, id: usize, g: &Grid, set: usize) -> (Option<Grid>, bool) {
    let c = d.cursor();
    match sx::pick(set) {
        0 => {
            let i = sx::range(0, g.rows + 1);
            (g.insert_row(i), c.insert_table_row(id, i).is_ok())
        }
        1 => {
            let i = sx::range(0, g.cols + 1);
            (g.clone().transpose().insert_row(i).map(|g| g.transpose()), c.insert_table_column(id, i).is_ok())
        }
        2 => {
            let i = sx::range(0, g.rows);
            (g.remove_row(i), c.remove_table_row(id, i).is_ok())
        }
        3 => {
            let i = sx::range(0, g.cols);
            (g.clone().transpose().remove_row(i).map(|g| g.transpose()), c.remove_table_column(id, i).is_ok())
        }
        4 => {
            let i = sx::pick(g.cells.len());
            let (r, k) = (g.cells[i].r, g.cells[i].c);
            let (sr, sc) = (sx::range(1, (g.cells[i].rs + 1).min(3)), sx::range(1, (g.cells[i].cs + 1).min(3)));
            let x = table_of(d, id).unwrap().cell(r, k).unwrap().id();
            (g.split(i, sr, sc), c.split_table_cell(x, sr, sc).is_ok())
        }
        5 => {
            let (r0, c0) = (sx::range(0, g.rows - 1), sx::range(0, g.cols - 1));
            let (r1, c1) = (sx::range(r0, g.rows - 1), sx::range(c0, g.cols - 1));
            (g.merge(r0, c0, r1, c1), c.merge_table_cells(id, r0, c0, r1, c1).is_ok())
        }
        6 => match sx::pick(4) {
            0 => (None, c.merge_table_cells(id, 1, 0, 0, 0).is_ok()),
            1 => (None, c.merge_table_cells(id, 0, 0, 0, g.cols).is_ok()),
            2 => (None, c.merge_table_cells(id, 0, 1, g.rows, 1).is_ok()),
            _ => (None, c.split_table_cell(9999, 1, 1).is_ok()),
        },
        // through the caret
        _ => {
            let i = sx::pick(g.cells.len());
            let x = &g.cells[i];
            let b = table_of(d, id).unwrap().cell(x.r, x.c).unwrap().blocks();
            let b = &b[sx::pick(b.len())];
            let p = b.position() + if sx::flag() { b.length() } else { 0 };
            let c = d.cursor_at(p);
            let tr = |g: Option<Grid>| g.map(|g| g.transpose());
            match sx::pick(7) {
                0 => (g.insert_row(x.r), c.insert_row_above().is_ok()),
                1 if x.rs == 1 => (g.insert_row(x.r + 1), c.insert_row_below().is_ok()),
                2 => (tr(g.clone().transpose().insert_row(x.c)), c.insert_column_before().is_ok()),
                3 if x.cs == 1 => (tr(g.clone().transpose().insert_row(x.c + 1)), c.insert_column_after().is_ok()),
                4 => (g.remove_row(x.r), c.remove_current_row().is_ok()),
                5 => (tr(g.clone().transpose().remove_row(x.c)), c.remove_current_column().is_ok()),
                _ => (g.split(i, x.rs, x.cs), c.split_current_cell(x.rs, x.cs).is_ok()),
            }
        }
    }
}

fn step(d: &TextDocument, id: usize, g: Grid, set: usize) -> Grid {
    barrier();
    let s = surround(d, id);
    let before = state(d);
    if DBG { dump(d, "before"); }
    let (want, ok) = operate(d, id, &g, set);
    if DBG { dump(d, "after"); }
    match want {
        None => {
            sx::check(!ok, "operation on a table succeeded where it is not possible");
            check_same(&before, &state(d), "refused table operation changed the document");
            sx::reach(2);
            g
        }
        Some(w) => {
            sx::check(ok, "operation on a table was refused");
            let now = read(d, id);
            sx::check(now == w, "table operation");
            sx::check(surround(d, id) == s, "table operation changed its surroundings");
            w
        }
    }
}
/// rectangles to merge first
const RECTS: [(usize, usize, usize, usize); 6] = [(0, 0, 1, 1), (0, 1, 2, 1), (1, 0, 1, 2), (1, 1, 2, 2), (0, 0, 2, 2), (0, 2, 1, 2)];

fn ops_(premerge: usize, set: usize, check: bool) {
    let (rows, cols) = if premerge == 0 { [(1, 1), (1, 3), (2, 2)][sx::pick(3)] } else { (3, 3) };
    let (d, id) = grid_doc(rows, if premerge == 0 && rows == 1 && cols == 1 { 2 } else { cols });
    let mut g = read(&d, id);
    if premerge > 0 {
        let (a, b, e, f) = RECTS[sx::pick(premerge)];
        d.cursor().merge_table_cells(id, a, b, e, f).unwrap();
        g = g.merge(a, b, e, f).unwrap();
        sx::check(read(&d, id) == g, "merge");
    }
    let before = state(&d);
    let n = usize::from(d.can_undo());
    let w = step(&d, id, g.clone(), set);
    coherent(&d);
    if check {
        handles(&d, id, &w);
    }
    sx::reach(1);
    observe_doc(&d);
    if w != g {
        d.undo().unwrap();
        check_same(&before, &state(&d), "undo of a table operation");
        sx::check(d.can_undo() == (n == 1), "undo steps of a table operation");
        d.redo().unwrap();
        sx::check(read(&d, id) == w, "redo of a table operation");
        coherent(&d);
    }
}
pub fn ops_plain() { ops_(0, 8, true) }
pub fn ops_merged() { ops_(4, 6, false) }
pub fn ops_merged_caret() {
    // only through the caret, on merged tables
    ops_(3, 8, true)
}
pub fn ops_full() { ops_(6, 8, true) }

/// a table that was imported, pasted or grown
fn foreign_doc(k: usize) -> (TextDocument, usize) {
    let d = match k {
        0 => {
            let d = plain_doc("");
            d.set_html("<p>ab</p><table><tr><td>x</td><td>yz</td></tr><tr><td></td><td>w</td></tr></table><p>cd</p>").unwrap().wait().unwrap();
            d
        }
        1 => {
            let d = plain_doc("");
            d.set_markdown("ab\n\n| x | yz |\n|---|---|\n| u | w |\n\ncd").unwrap().wait().unwrap();
            d
        }
        2 => {
            let (a, _) = grid_doc(2, 2);
            let f = text_document::DocumentFragment::from_document(&a).unwrap();
            let d = sym_doc("ab");
            d.cursor_at(1).insert_fragment(&f).unwrap();
            d
        }
        _ => {
            let (d, id) = grid_doc(1, 2);
            d.cursor().insert_table_row(id, 1).unwrap();
            d.cursor().insert_table_column(id, 1).unwrap();
            d
        }
    };
    let mut id = usize::MAX;
    for e in d.flow() {
        if let FlowElement::Table(t) = e {
            id = t.id();
        }
    }
    sx::check(id != usize::MAX, "a table of another source is missing");
    d.clear_undo_redo();
    barrier();
    (d, id)
}
pub fn foreign() {
    let (d, id) = foreign_doc(sx::pick(4));
    let g = read(&d, id);
    coherent(&d);
    handles(&d, id, &g);
    let before = state(&d);
    let w = step(&d, id, g.clone(), 6);
    coherent(&d);
    handles(&d, id, &w);
    sx::reach(1);
    if w != g {
        d.undo().unwrap();
        check_same(&before, &state(&d), "undo of a table operation");
        d.redo().unwrap();
        sx::check(read(&d, id) == w, "redo of a table operation");
        coherent(&d);
    }
    observe_doc(&d);
}

/// two merges and then another operation
pub fn two() {
    let (d, id) = grid_doc(2, 3);
    let mut g = read(&d, id);
    let s = surround(&d, id);
    for k in 0..2 {
        let (want, ok) = operate(&d, id, &g, if k == 0 { 4 } else { 6 });
        sx::check(ok == want.is_some(), "table operation accepted or refused wrongly");
        if let Some(w) = want {
            g = w;
        }
        sx::check(read(&d, id) == g, "second table operation");
    }
    sx::check(surround(&d, id) == s, "table operations changed the surroundings");
    coherent(&d);
    sx::reach(1);
    observe_doc(&d);
}
pub fn three() {
    let (d, id) = grid_doc(2, 2);
    let mut g = read(&d, id);
    for _ in 0..3 {
        let (want, ok) = operate(&d, id, &g, 6);
        sx::check(ok == want.is_some(), "table operation accepted or refused wrongly");
        if let Some(w) = want {
            g = w;
        }
        sx::check(read(&d, id) == g, "a table operation in a sequence");
    }
    coherent(&d);
    sx::reach(1);
    observe_doc(&d);
}

/// inserting and removing a whole table
pub fn whole() { whole_(0) }
pub fn whole_foreign() { whole_(6) }
fn whole_(from: usize) {
    let k = if from == 0 { sx::pick(6) } else { from + sx::pick(4) };
    let d = match k {
        6.. => foreign_doc(k - 6).0,
        0 => sym_doc("ab\n\ncd"),
        1 => plain_doc(""),
        2 => table_doc(),
        3 => frame_doc(),
        4 => list_doc(),
        _ => {
            // pending position updates
            let d = sym_doc("ab\ncd\nef");
            d.cursor_at(1).insert_text(&letters(3)).unwrap();
            d.cursor_at(4).insert_block().unwrap();
            d.clear_undo_redo();
            d
        }
    };
    barrier();
    let n = end_of(&d);
    let p = sx::range(0, n);
    let (rows, cols) = [(1, 1), (2, 3), (3, 1)][sx::pick(3)];
    let before = state(&d);
    let fl = surround(&d, usize::MAX);
    let blocks: Vec<(usize, usize, usize)> = d.blocks().iter().map(|b| (b.id(), b.position(), b.length())).collect();
    // the host: a caret at the end of a block is in that block
    let h = blocks.iter().rposition(|b| b.1 <= p).unwrap();
    let host = d.blocks()[h].clone();
    let cell = host.table_cell();
    let c = d.cursor_at(p);
    if DBG { dump(&d, "before"); }
    let t = match c.insert_table(rows, cols) {
        Ok(t) => t,
        Err(_) => sx::fail("insert_table failed"),
    };
    if DBG { dump(&d, "after"); }
    let id = t.id();
    let g = read(&d, id);
    sx::check(g.rows == rows && g.cols == cols && g.cells.len() == rows * cols && g.cells.iter().all(|c| c.t == vec![String::new()]), "new table");
    handles(&d, id, &g);
    coherent(&d);
    // everything else stays, the table comes behind the block the caret is in
    // (before it when the caret is at its start, behind the table it is in)
    let s = surround(&d, id);
    let mut o = s.clone();
    let Some(i) = o.iter().position(|x| x == "<T>") else { sx::fail("inserted table is not in the flow") };
    o.remove(i);
    sx::check(o == fl, "insert_table changed what is around it");
    let first = t.cell(0, 0).unwrap().blocks()[0].position();
    let want = match &cell {
        Some(k) => {
            let x = k.table.snapshot();
            let mut e = 0;
            for c in &x.cells {
                for b in &c.blocks {
                    e = e.max(b.position + b.length);
                }
            }
            e + 1
        }
        None if p == blocks[h].1 => p,
        None => blocks[h].1 + blocks[h].2 + 1,
    };
    sx::check(first == want, "place of the inserted table");
    sx::check(c.position() == first && c.anchor() == first, "caret after insert_table");
    match c.current_table_cell() {
        Some(k) => sx::check(k.table.id() == id && k.row == 0 && k.column == 0, "caret is in the first cell"),
        None => sx::fail("caret is not in the new table"),
    }
    sx::reach(1);
    observe_doc(&d);
    // with text in it, remove it again
    barrier();
    c.insert_text(&letters(2)).unwrap();
    let filled = state(&d);
    barrier();
    if sx::flag() {
        c.remove_current_table().unwrap();
    } else {
        d.cursor().remove_table(id).unwrap();
    }
    sx::check(surround(&d, id) == fl, "remove_table changed what is around it");
    coherent(&d);
    let gone = state(&d);
    sx::check(gone.plain == before.plain && gone.stats == before.stats && gone.blocks == before.blocks, "document after inserting and removing a table");
    d.undo().unwrap();
    check_same(&filled, &state(&d), "undo of remove_table");
    d.undo().unwrap();
    d.undo().unwrap();
    check_same(&before, &state(&d), "undo of insert_table");
}

/// what kind of selection a range is, and which cells it covers
pub fn selections() {
    let (d, id) = grid_doc(2, 3);
    let mut g = read(&d, id);
    match sx::pick(4) {
        0 => {}
        k => {
            let (a, b, e, f) = [(0, 0, 1, 0), (0, 1, 0, 2), (0, 1, 1, 2)][k - 1];
            d.cursor().merge_table_cells(id, a, b, e, f).unwrap();
            g = g.merge(a, b, e, f).unwrap();
        }
    }
    let n = end_of(&d);
    let p = sx::range(0, n);
    let q = sx::range(0, n);
    let c = sel(&d, q, p);
    let (p, q) = (c.position(), c.anchor());
    let of = |x: usize| {
        let b = d.blocks();
        let i = b.iter().rposition(|b| b.position() <= x).unwrap();
        b[i].table_cell().map(|k| (k.row, k.column))
    };
    let all = (0, 0, g.rows - 1, g.cols - 1);
    let rng = |r: &CellRange| {
        sx::check(r.table_id == id, "table of a cell range");
        (r.start_row, r.start_col, r.end_row, r.end_col)
    };
    let k = c.selection_kind();
    let (want, kind) = match (of(p), of(q)) {
        _ if p == q => (None, 0),
        (None, None) => {
            let first = table_of(&d, id).unwrap().cell(0, 0).unwrap().blocks()[0].position();
            if p.min(q) < first && p.max(q) > first { (Some(all), 3) } else { (None, 1) }
        }
        (Some(x), Some(y)) if x == y => (None, 1),
        (Some(x), Some(y)) => (Some(g.closure((x.0.min(y.0), x.1.min(y.1), x.0.max(y.0), x.1.max(y.1)))), 2),
        _ => (Some(all), 3),
    };
    match (&k, kind) {
        (SelectionKind::None, 0) | (SelectionKind::Text, 1) => {}
        (SelectionKind::Cells(r), 2) => sx::check(Some(rng(r)) == want, "cells of a selection"),
        (SelectionKind::Mixed { cell_range, text_before, text_after }, 3) => {
            sx::check(Some(rng(cell_range)) == want, "cells of a mixed selection");
            let (b, a) = match (of(p), of(q)) {
                (None, None) => (true, true),
                (None, _) => (p < q, p > q),
                _ => (q < p, q > p),
            };
            sx::check(*text_before == b && *text_after == a, "text sides of a mixed selection");
        }
        _ => sx::fail("kind of a selection"),
    }
    sx::check(c.is_cell_selection() == (kind >= 2), "is_cell_selection");
    let cells: Vec<(usize, usize)> = c.selected_cells().iter().map(|x| (x.row, x.column)).collect();
    let exp: Vec<(usize, usize)> = match want {
        Some(w) => g.cells.iter().filter(|x| x.r >= w.0 && x.r <= w.2 && x.c >= w.1 && x.c <= w.3).map(|x| (x.r, x.c)).collect(),
        None => vec![],
    };
    sx::check(cells == exp, "selected_cells");
    sx::reach(1);
    if kind == 2 {
        // merging the selection merges exactly the two corner cells' rectangle
        let (x, y) = (of(p).unwrap(), of(q).unwrap());
        let w = g.merge(x.0.min(y.0), x.1.min(y.1), x.0.max(y.0), x.1.max(y.1));
        let ok = c.merge_selected_cells().is_ok();
        sx::check(ok == w.is_some(), "merge_selected_cells accepted or refused wrongly");
        sx::check(read(&d, id) == w.unwrap_or(g), "merge_selected_cells");
        sx::reach(2);
        return;
    }
    // an explicit selection
    let (a, b) = (sx::range(0, 1), sx::range(0, 2));
    let (e, f) = (sx::range(a, 1), sx::range(b, 2));
    c.select_cell_range(id, a, b, e, f);
    match c.selection_kind() {
        SelectionKind::Cells(r) => sx::check(rng(&r) == g.closure((a, b, e, f)), "select_cell_range"),
        _ => sx::fail("select_cell_range is not a cell selection"),
    }
    c.clear_cell_selection();
    sx::check(c.selection_kind() == k, "clear_cell_selection");
}
