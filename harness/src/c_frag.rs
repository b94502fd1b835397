//! C11: copying a selection and pasting it carries exactly the selected text,
//! with its formats, to the caret, and touches nothing else.
use crate::c_text::{stale_doc, whole};
use crate::docs::*;
use crate::ops::barrier;
use crate::sx;
use crate::util::*;
const DBG: bool = cfg!(feature = "dbg");

#[derive(Clone, PartialEq)]
pub struct B {
    id: usize,
    pos: usize,
    t: Vec<(char, TextFormat)>,
    f: BlockFormat,
    /// the list, and how it looks
    l: Option<(usize, ListStyle, u8)>,
    frame: Option<usize>,
    cell: Option<TableCellContext>,
}
impl B {
    fn text(&self) -> String {
        self.t.iter().map(|c| c.0).collect()
    }
    fn end(&self) -> usize {
        self.pos + self.t.len()
    }
}
pub fn model(d: &TextDocument) -> Vec<B> {
    let flow = d.snapshot_flow();
    let mut fl = vec![];
    flat(&flow.elements, &mut fl);
    fl.iter()
        .map(|b| {
            let mut t = vec![];
            for f in &b.fragments {
                match f {
                    FragmentContent::Text { text, format, .. } => {
                        for c in text.chars() {
                            t.push((c, format.clone()));
                        }
                    }
                    FragmentContent::Image { .. } => t.push(('\u{fffc}', TextFormat::default())),
                }
            }
            B {
                id: b.block_id,
                pos: b.position,
                t,
                f: b.block_format.clone(),
                l: b.list_info.as_ref().map(|l| (l.list_id, l.style.clone(), l.indent)),
                frame: b.parent_frame_id,
                cell: b.table_cell.clone(),
            }
        })
        .collect()
}
/// what a selection s..e takes of the blocks: the text and, where the
/// paragraph is taken whole and has a look of its own, that paragraph
fn taken(m: &[B], s: usize, e: usize) -> Vec<(B, bool)> {
    let mut v = vec![];
    for (i, b) in m.iter().enumerate() {
        if s == e || b.end() < s || b.pos >= e {
            continue;
        }
        let (x, y) = (s.max(b.pos) - b.pos, e.min(b.end()) - b.pos);
        let all = x == 0 && y == b.t.len() && (e > b.end() || i + 1 == m.len());
        let mut c = b.clone();
        c.t = b.t[x..y].to_vec();
        let own = all && (b.l.is_some() || b.f != BlockFormat::default());
        v.push((c, own));
    }
    v
}
fn joined(v: &[(B, bool)]) -> Vec<(char, TextFormat)> {
    let mut o = vec![];
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            o.push(('\n', TextFormat::default()));
        }
        o.extend(b.0.t.iter().cloned());
    }
    o
}
fn line(m: &[B]) -> Vec<(char, TextFormat)> {
    let mut o = vec![];
    for (i, b) in m.iter().enumerate() {
        if i > 0 {
            o.push(('\n', TextFormat::default()));
        }
        o.extend(b.t.iter().cloned());
    }
    o
}

/// `want` (with the paragraphs that keep their look) pasted at p
pub fn check_paste(d: &TextDocument, old: &[B], want: &[(B, bool)], p: usize, caret: usize) {
    let new = model(d);
    let (a, b) = (line(old), line(&new));
    let x = joined(want);
    sx::check(b.len() >= a.len() + x.len(), "pasting lost text");
    let extra = b.len() - a.len() - x.len();
    sx::check(extra <= 2, "pasting added text");
    sx::check(b[..p] == a[..p], "the text before the caret");
    sx::check(b[b.len() - (a.len() - p)..] == a[p..], "the text after the caret");
    let mid = &b[p..p + x.len() + extra];
    // at most one line break on either side of the pasted text
    let br = |k: usize| mid[k].0 == '\n';
    let lead = match extra {
        0 => 0,
        1 => {
            let l = usize::from(br(0) && mid[1..] == x[..]);
            sx::check(l == 1 || br(mid.len() - 1), "pasted text");
            l
        }
        _ => {
            sx::check(br(0) && br(mid.len() - 1), "pasted text");
            1
        }
    };
    sx::check(mid[lead..lead + x.len()] == x[..], "pasted text");
    let last = p + lead + x.len();
    if x.is_empty() && extra == 0 {
        sx::check(caret == p, "the caret after pasting nothing");
    } else {
        sx::check(caret >= last && caret <= p + mid.len(), "the caret after a paste");
    }
    // the other blocks
    let cur = old.iter().rposition(|k| k.pos <= p).unwrap();
    let o = &old[cur];
    let tail = old.len() - cur - 1;
    sx::check(new.len() >= old.len(), "blocks");
    let span = new.len() - cur - tail;
    for (i, k) in old.iter().enumerate() {
        if i == cur {
            continue;
        }
        let n = if i < cur { &new[i] } else { &new[i - cur - 1 + cur + span] };
        sx::check(n.id == k.id && n.t == k.t, "another block");
        sx::check(n.f == k.f && n.l == k.l, "another block's look");
        sx::check(n.frame == k.frame && n.cell == k.cell, "another block's place");
    }
    let touched = &new[cur..cur + span];
    for n in touched {
        sx::check(n.frame == o.frame && n.cell == o.cell, "the place of a pasted block");
    }
    // what is left of the caret's own block keeps its look
    let off = p - o.pos;
    let whole_empty = o.t.is_empty();
    if off > 0 {
        sx::check(touched[0].id == o.id && touched[0].f == o.f && touched[0].l == o.l, "the look of the text before the caret");
    }
    if off < o.t.len() {
        let z = &touched[span - 1];
        sx::check(z.f == o.f && z.l == o.l, "the look of the text after the caret");
    }
    // whole paragraphs with a look of their own arrive as paragraphs
    let mut at = 0;
    for (w, own) in want {
        if !*own {
            continue;
        }
        let mut hit = false;
        while at < span && !hit {
            let n = &touched[at];
            hit = n.t == w.t && n.f == w.f && n.l.as_ref().map(|l| (&l.1, l.2)) == w.l.as_ref().map(|l| (&l.1, l.2));
            at += 1;
        }
        sx::check(hit, "a pasted paragraph's look");
        sx::reach(3);
    }
    let _ = whole_empty;
}

fn frag_doc(k: usize) -> TextDocument {
    match k {
        0 => sym_doc("ab\ncd\n\nef"),
        1 => rich_doc(),
        2 => {
            // a heading, a list of two, a paragraph
            let d = sym_doc("ab\ncd\nef\ng");
            let f = BlockFormat { heading_level: Some(2), alignment: Some(Alignment::Center), ..Default::default() };
            d.cursor_at(0).set_block_format(&f).unwrap();
            sel(&d, 3, 8).create_list(ListStyle::Decimal).unwrap();
            sel(&d, 4, 7).merge_char_format(&fmt_bold()).unwrap();
            d.clear_undo_redo();
            d
        }
        3 => stale_doc(sx::pick(5)),
        4 => plain_doc(""),
        5 => table_doc(),
        7 => {
            // one paragraph with one look of its own
            let d = sym_doc("ab\ncd\n\nef");
            let b = d.blocks();
            let k = sx::pick(b.len());
            let l = sx::pick(13);
            d.cursor_at(b[k].position()).set_block_format(&one_look(l)).unwrap();
            d.clear_undo_redo();
            d
        }
        _ => frame_doc(),
    }
}
fn one_look(k: usize) -> BlockFormat {
    let some = |j: usize| (k == j).then_some(7);
    BlockFormat {
        alignment: (k == 0).then_some(Alignment::Right),
        top_margin: some(1),
        bottom_margin: some(2),
        left_margin: some(3),
        right_margin: some(4),
        heading_level: (k == 5).then_some(3),
        indent: (k == 6).then_some(2),
        text_indent: some(7),
        tab_positions: if k == 8 { vec![3, 9] } else { vec![] },
        line_height: (k == 9).then_some(1.5),
        non_breakable_lines: (k == 10).then_some(true),
        direction: (k == 11).then_some(TextDirection::RightToLeft),
        background_color: (k == 12).then(|| "#123456".to_string()),
        ..Default::default()
    }
}

/// copy s..e of one document, paste at p of the other (or the same)
fn copy_paste(src: usize, dst: Option<usize>, full: bool) {
    let a = frag_doc(src);
    let n = end_of(&a);
    let before = state(&a);
    let m = model(&a);
    let s = if full { sx::range(0, n) } else if src == 7 { [0, 3, 6, 7][sx::pick(4)] } else { [0, 1, 3.min(n), n / 2, n][sx::pick(5)] };
    let e = sx::range(s, n);
    let f = if sx::flag() { sel(&a, s, e).selection() } else { sel(&a, e, s).selection() };
    check_same(&state(&a), &before, "copying");
    let v = taken(&m, s, e);
    {
        let mut t = String::new();
        for c in joined(&v) {
            t.push(c.0);
        }
        sx::check(f.to_plain_text() == t, "the copied text");
        // the trailing break of the last line is not part of it
        let w = sub(&whole(&a), s, e);
        sx::check(w == t || (w.len() == t.len() + 1 && w.ends_with('\n') && w.starts_with(&t)), "the copied text and text_at");
        sx::check(f.is_empty() == t.is_empty() || s != e, "is_empty");
    }
    let d = match dst {
        None => a.clone(),
        Some(k) => frag_doc(k),
    };
    let old = model(&d);
    let base = state(&d);
    let p = sx::range(0, end_of(&d));
    let c = d.cursor_at(p);
    barrier();
    if f.is_empty() && !v.iter().any(|b| b.1) {
        let _ = c.insert_fragment(&f);
        check_same(&state(&d), &base, "pasting nothing");
        return;
    }
    if c.insert_fragment(&f).is_err() {
        sx::fail("insert_fragment failed");
    }
    if DBG {
        dump(&d, "pasted");
        sx::note(&format!("s {s} e {e} p {p} caret {} frag {:?}\n", c.position(), f.to_plain_text()));
    }
    sx::reach(1);
    check_paste(&d, &old, &v, p, c.position());
    coherent(&d);
    let done = state(&d);
    d.undo().unwrap();
    check_same(&state(&d), &base, "undo of a paste");
    d.redo().unwrap();
    check_same(&canon(&state(&d)), &canon(&done), "redo of a paste");
    observe_doc(&d);
}
pub fn flat_same() { copy_paste([0, 2][sx::pick(2)], None, false) }
pub fn flat_rich() { copy_paste([1, 3][sx::pick(2)], None, false) }
/// every look a paragraph can have, copied with the paragraph into an empty document
pub fn looks() { copy_paste(7, Some(4), false) }
pub fn flat_full() { copy_paste(sx::pick(4), None, true) }
pub fn across() { copy_paste(sx::pick(3), Some([2, 4, 5, 6][sx::pick(4)]), false) }
pub fn across_full() { copy_paste(sx::pick(4), Some(sx::pick(7)), true) }

/// pasting over a selection is removing it and pasting
fn over_selection(dst: usize, full: bool) {
    let d = frag_doc(dst);
    let n = end_of(&d);
    let s = if full { sx::range(0, n) } else { [0, 2.min(n)][sx::pick(2)] };
    let e = if full { sx::range(s, n) } else { [n.min(s + 1), n.min(s + 4), n][sx::pick(3)] };
    let f = sel(&d, s, e).selection();
    if f.is_empty() {
        return;
    }
    let base = state(&d);
    let p = sx::range(0, n);
    let q = if full { sx::range(p, n) } else { [n.min(p + 2), n][sx::pick(2)] };
    if p == q {
        return;
    }
    let other = d.cursor_at([0, n][sx::pick(2)]);
    let o = other.position();
    let c = if sx::flag() { sel(&d, p, q) } else { sel(&d, q, p) };
    barrier();
    if c.insert_fragment(&f).is_err() {
        sx::fail("insert_fragment over a selection failed");
    }
    let one = state(&d);
    coherent(&d);
    let at = (c.position(), c.anchor());
    let moved = other.position();
    d.undo().unwrap();
    check_same(&state(&d), &base, "undo of a paste over a selection");
    let x = d.cursor_at(o);
    let c = sel(&d, p, q);
    c.remove_selected_text().unwrap();
    if c.insert_fragment(&f).is_err() {
        sx::fail("insert_fragment failed");
    }
    check_same(&canon(&state(&d)), &canon(&one), "paste over a selection");
    sx::check(at == (c.position(), c.anchor()), "the caret of a paste over a selection");
    sx::check(moved == x.position() || (p <= o && o <= q), "a cursor of a paste over a selection");
    sx::reach(1);
    observe_doc(&d);
}
pub fn over_flat() { over_selection([0, 1, 3][sx::pick(3)], false) }
pub fn over_full() { over_selection(sx::pick(7), true) }

// ---- tables

#[derive(Clone, PartialEq)]
pub struct TCell {
    at: (usize, usize, usize, usize),
    f: CellFormat,
    b: Vec<(Vec<(char, TextFormat)>, BlockFormat)>,
}
#[derive(Clone, PartialEq)]
pub struct T {
    size: (usize, usize),
    f: TableFormat,
    w: Vec<i32>,
    cells: Vec<TCell>,
}
#[derive(Clone, PartialEq)]
pub enum Item {
    Ch(char, TextFormat),
    Break,
    Table(T),
}
fn text_of(b: &BlockSnapshot) -> Vec<(char, TextFormat)> {
    let mut t = vec![];
    for f in &b.fragments {
        if let FragmentContent::Text { text, format, .. } = f {
            for c in text.chars() {
                t.push((c, format.clone()));
            }
        }
    }
    t
}
fn table_of(t: &TableSnapshot) -> T {
    let mut cells: Vec<TCell> = t
        .cells
        .iter()
        .map(|c| TCell {
            at: (c.row, c.column, c.row_span, c.column_span),
            f: c.format.clone(),
            b: c.blocks.iter().map(|b| (text_of(b), b.block_format.clone())).collect(),
        })
        .collect();
    cells.sort_by_key(|c| c.at);
    T { size: (t.rows, t.columns), f: t.format.clone(), w: t.column_widths.clone(), cells }
}
/// the flow as text, breaks and tables; `p` becomes an index into it
fn items(els: &[FlowElementSnapshot], p: usize, out: &mut Vec<Item>, at: &mut Option<(usize, usize, usize)>) {
    for e in els {
        match e {
            FlowElementSnapshot::Block(b) => {
                let k = out.len();
                if at.is_none() && b.position <= p && p <= b.position + b.length {
                    // where the caret is, where its block starts and ends
                    *at = Some((k + p - b.position, k, k + b.length));
                }
                for (c, f) in text_of(b) {
                    out.push(Item::Ch(c, f));
                }
                out.push(Item::Break);
            }
            FlowElementSnapshot::Table(t) => out.push(Item::Table(table_of(t))),
            FlowElementSnapshot::Frame(f) => items(&f.elements, p, out, at),
        }
    }
}
fn solid(v: &[Item]) -> Vec<&Item> {
    v.iter().filter(|i| !matches!(i, Item::Break)).collect()
}

/// paragraph, 2x2 table (formats in the cells, one cell of two paragraphs,
/// one spare paragraph format), paragraph, maybe a second table at the end
fn src_doc(k: usize) -> TextDocument {
    let d = sym_doc("ab\ncd");
    let t = d.cursor_at(2).insert_table(2, 2).unwrap();
    for (r, c, n) in [(0, 0, 1), (0, 1, 2), (1, 1, 1)] {
        let b = t.cell(r, c).unwrap().blocks();
        d.cursor_at(b[0].position()).insert_text(&letters(n)).unwrap();
    }
    let b = t.cell(0, 1).unwrap().blocks();
    let q = b[0].position();
    sel(&d, q, q + 1).merge_char_format(&fmt_bold()).unwrap();
    let f = BlockFormat { alignment: Some(Alignment::Right), ..Default::default() };
    d.cursor_at(q).set_block_format(&f).unwrap();
    d.cursor().set_table_cell_format(t.cell(0, 0).unwrap().id(), &CellFormat { padding: Some(3), ..Default::default() }).unwrap();
    d.cursor().set_table_format(t.id(), &TableFormat { border: Some(2), ..Default::default() }).unwrap();
    if k > 0 {
        d.cursor_at(q + 1).insert_block().unwrap();
        if k == 2 {
            d.cursor().merge_table_cells(t.id(), 1, 0, 1, 1).unwrap();
        }
    }
    d.clear_undo_redo();
    d
}
fn dst_doc(k: usize) -> TextDocument {
    match k {
        0 => sym_doc("ab\ncd"),
        1 => plain_doc(""),
        2 => frame_doc(),
        3 => src_doc(0),
        _ => {
            let d = sym_doc("ab");
            let t = d.cursor_at(2).insert_table(1, 3).unwrap();
            let b = t.cell(0, 1).unwrap().blocks();
            d.cursor_at(b[0].position()).insert_text(&letters(2)).unwrap();
            d.clear_undo_redo();
            d
        }
    }
}

/// the table operation a pasted table is, on the cells from (r, c) on
fn over(t: &T, r: usize, c: usize, x: &T) -> Option<T> {
    let (mr, mc) = x.cells.iter().fold((0, 0), |m, k| (m.0.max(k.at.0), m.1.max(k.at.1)));
    if r + mr >= t.size.0 || c + mc >= t.size.1 {
        return None;
    }
    let mut o = t.clone();
    for k in &x.cells {
        for y in &mut o.cells {
            if y.at.0 == r + k.at.0 && y.at.1 == c + k.at.1 {
                y.b = k.b.clone();
            }
        }
    }
    Some(o)
}

fn tables(src: usize, dst: usize, full: bool) {
    let a = src_doc(src);
    let n = end_of(&a);
    let before = state(&a);
    let (s, e) = if full {
        let s = sx::range(0, n);
        (s, sx::range(s, n))
    } else {
        let s = [0, 1, 3, 6][sx::pick(4)];
        (s, [4, 8, n][sx::pick(3)].max(s))
    };
    let c0 = if sx::flag() { sel(&a, s, e) } else { sel(&a, e, s) };
    // a selection out of a table is one of the whole table
    let (s, e) = (c0.selection_start(), c0.selection_end());
    // what is selected: whole tables as soon as two cells, or text and a cell
    let flow = a.snapshot_flow();
    let mut hit: Vec<(Option<(usize, usize)>, usize, usize)> = vec![];
    let bl = {
        let mut v = vec![];
        flat(&flow.elements, &mut v);
        v
    };
    for b in &bl {
        let (x, y) = (b.position, b.position + b.length);
        if s == e || y < s || x >= e {
            continue;
        }
        hit.push((b.table_cell.as_ref().map(|c| (c.row, c.column)), s.max(x) - x, e.min(y) - x));
    }
    let cross = hit.iter().any(|h| h.0 != hit[0].0);
    if !cross {
        return;
    }
    let f = c0.selection();
    check_same(&state(&a), &before, "copying");
    // the items it is
    let mut want: Vec<Item> = vec![];
    let mut nb = 0;
    for el in &flow.elements {
        match el {
            FlowElementSnapshot::Block(b) => {
                let (x, y) = (b.position, b.position + b.length);
                if y < s || x >= e {
                    continue;
                }
                let t = text_of(b);
                for (c, f) in &t[s.max(x) - x..e.min(y) - x] {
                    want.push(Item::Ch(*c, f.clone()));
                }
                want.push(Item::Break);
                nb += 1;
            }
            FlowElementSnapshot::Table(t) => want.push(Item::Table(table_of(t))),
            FlowElementSnapshot::Frame(_) => {}
        }
    }
    let d = dst_doc(dst);
    let base = state(&d);
    let end = end_of(&d);
    let p = if full { sx::range(0, end) } else { [0, 1.min(end), 3.min(end), end][sx::pick(4)] };
    let mut old = vec![];
    let mut at = None;
    items(&base.flow.elements, p, &mut old, &mut at);
    let c = d.cursor_at(p);
    let cell = c.current_table_cell().map(|k| (k.table.id(), k.row, k.column));
    barrier();
    if c.insert_fragment(&f).is_err() {
        sx::fail("insert_fragment failed");
    }
    if DBG {
        dump(&d, "pasted");
        sx::note(&format!("s {s} e {e} p {p} caret {} cell {cell:?} nb {nb}\n", c.position()));
    }
    let done = state(&d);
    let mut new = vec![];
    items(&done.flow.elements, 0, &mut new, &mut None);
    match (cell, at) {
        (None, Some((i, st, en))) => {
            let tables_only = nb == 0;
            let i = if tables_only { if i > st { en } else { st } } else { i };
            let mut w = old[..i].to_vec();
            w.extend(want.iter().cloned());
            w.extend(old[i..].iter().cloned());
            sx::check(solid(&w) == solid(&new), "pasting text and tables");
            let (x, y) = (w.len() - solid(&w).len(), new.len() - solid(&new).len());
            sx::check(y <= x + 1 && y + 2 >= x, "the line breaks of a paste with tables");
            sx::reach(if tables_only { 1 } else { 2 });
        }
        (Some((id, r, k)), None) if nb == 0 => {
            // over the cells, or behind the table
            let x = match &want[0] {
                Item::Table(t) => t.clone(),
                _ => unreachable!(),
            };
            let mut w = vec![];
            for el in &base.flow.elements {
                let mut one = vec![];
                items(core::slice::from_ref(el), 0, &mut one, &mut Some((0, 0, 0)));
                match el {
                    FlowElementSnapshot::Table(t) if t.table_id == id => match over(&table_of(t), r, k, &x) {
                        Some(o) => w.push(Item::Table(o)),
                        None => {
                            w.extend(one);
                            w.push(Item::Table(x.clone()));
                        }
                    },
                    _ => w.extend(one),
                }
            }
            sx::check(w == new, "pasting a table in a table");
            sx::reach(3);
        }
        (Some((id, r, k)), None) => {
            // text and tables in a cell: all of it as text in that cell
            let mut ins = String::new();
            for i in &want {
                match i {
                    Item::Ch(c, _) => ins.push(*c),
                    Item::Break => {}
                    Item::Table(t) => {
                        for c in &t.cells {
                            for b in &c.b {
                                ins.extend(b.0.iter().map(|x| x.0));
                            }
                        }
                    }
                }
            }
            for (x, y) in base.flow.elements.iter().zip(&done.flow.elements) {
                match (x, y) {
                    (FlowElementSnapshot::Block(x), FlowElementSnapshot::Block(y)) => {
                        sx::check(x.block_id == y.block_id && text_of(x) == text_of(y) && x.block_format == y.block_format, "a paste in a cell changes the text around");
                    }
                    (FlowElementSnapshot::Table(x), FlowElementSnapshot::Table(y)) => {
                        let (x_, y_) = (table_of(x), table_of(y));
                        sx::check(x_.size == y_.size && x_.cells.len() == y_.cells.len(), "the table around a paste");
                        for (u, v) in x_.cells.iter().zip(&y_.cells) {
                            if x.table_id == id && (u.at.0, u.at.1) == (r, k) {
                                let fl = |c: &TCell| -> String { c.b.iter().flat_map(|b| b.0.iter().map(|k| k.0)).collect() };
                                let (o, n) = (fl(u), fl(v));
                                sx::check(nchars(&n) == nchars(&o) + nchars(&ins) && n.contains(&ins), "text and tables in a cell");
                            } else {
                                sx::check(u == v, "a paste in a cell changes another");
                            }
                        }
                    }
                    _ => sx::fail("the flow after a paste in a cell"),
                }
            }
            sx::check(base.flow.elements.len() == done.flow.elements.len(), "the flow after a paste in a cell");
            sx::reach(4);
        }
        _ => sx::fail("caret"),
    }
    sx::check(c.position() <= end_of(&d), "the caret is in the document");
    coherent(&d);
    d.undo().unwrap();
    check_same(&state(&d), &base, "undo of a paste");
    d.redo().unwrap();
    check_same(&canon(&state(&d)), &canon(&done), "redo of a paste");
    observe_doc(&d);
}
pub fn tab_text() { tables(sx::pick(3), sx::pick(3), false) }
pub fn tab_cells() { tables(sx::pick(3), 3 + sx::pick(2), false) }
pub fn tab_full() { tables(sx::pick(3), sx::pick(5), true) }

/// a whole document as a fragment, pasted into an empty one
pub fn whole_doc() {
    let k = sx::pick(8);
    let a = if k < 5 { frag_doc(k) } else { src_doc(k - 5) };
    let before = state(&a);
    let f = match DocumentFragment::from_document(&a) {
        Ok(f) => f,
        Err(_) => sx::fail("from_document failed"),
    };
    check_same(&state(&a), &before, "from_document");
    let d = plain_doc("");
    let c = d.cursor();
    let _ = c.insert_fragment(&f);
    if DBG {
        dump(&a, "src");
        dump(&d, "pasted");
    }
    let (mut x, mut y) = (vec![], vec![]);
    items(&before.flow.elements, 0, &mut x, &mut None);
    items(&d.snapshot_flow().elements, 0, &mut y, &mut None);
    let blk = |m: &TextDocument| -> Vec<(Vec<(char, TextFormat)>, BlockFormat)> { model(m).iter().map(|b| (b.t.clone(), b.f.clone())).collect() };
    sx::check(x == y, "the copy of a document");
    sx::check(blk(&a) == blk(&d), "the copy of a document's paragraphs");
    coherent(&d);
    sx::reach(1);
    observe_doc(&d);
}
