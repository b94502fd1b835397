//! C17: a block, frame, table or cell format changes exactly the objects it
//! names and exactly the fields it gives; block formats through splits and
//! joins. C16: lists.
use crate::c_text::stale_doc;
use crate::docs::*;
use crate::ops::barrier;
use crate::sx;
use crate::util::*;
const DBG: bool = cfg!(feature = "dbg");

/// blocks of a flow, mutable, in document order
pub fn flat_mut<'a>(els: &'a mut [FlowElementSnapshot], out: &mut Vec<&'a mut BlockSnapshot>) {
    for e in els {
        match e {
            FlowElementSnapshot::Block(b) => out.push(b),
            FlowElementSnapshot::Table(t) => {
                t.cells.sort_by_key(|c| (c.row, c.column));
                for c in &mut t.cells {
                    for b in &mut c.blocks {
                        out.push(b);
                    }
                }
            }
            FlowElementSnapshot::Frame(f) => flat_mut(&mut f.elements, out),
        }
    }
}
fn sorted(mut f: FlowSnapshot) -> FlowSnapshot {
    let mut v = vec![];
    flat_mut(&mut f.elements, &mut v);
    f
}

fn any_block_format(full: bool) -> BlockFormat {
    let mut f = BlockFormat::default();
    match sx::pick(if full { 6 } else { 3 }) {
        0 => {
            f.alignment = Some(Alignment::Right);
            f.heading_level = Some(sx::sym(0, 6) as u8);
        }
        1 => {
            f.top_margin = Some(sx::any_u32() as i32);
            f.left_margin = Some(sx::sym(0, 99) as i32);
            f.indent = Some(sx::sym(0, 9) as u8);
            f.marker = Some(MarkerType::Checked);
            f.non_breakable_lines = Some(sx::flag());
        }
        2 => {
            f.is_code_block = Some(true);
            f.code_language = Some(String::from("rs"));
            f.background_color = Some(String::from("#111111"));
            f.direction = Some(TextDirection::RightToLeft);
        }
        3 => {
            f.bottom_margin = Some(sx::sym(0, 99) as i32);
            f.right_margin = Some(-3);
            f.text_indent = Some(sx::sym(0, 99) as i32);
        }
        4 => f.line_height = Some(1.5),
        _ => {}
    }
    f
}
fn put(o: &mut BlockFormat, f: &BlockFormat) {
    macro_rules! put { ($($n:ident),*) => { $(if f.$n.is_some() { o.$n = f.$n.clone(); })* } }
    put!(alignment, top_margin, bottom_margin, left_margin, right_margin, heading_level, indent, text_indent, marker, line_height, non_breakable_lines, direction, background_color, is_code_block, code_language);
}
/// first and last block that the range s..e reaches
fn reach_of(blocks: &[(usize, usize)], s: usize, e: usize) -> (usize, usize) {
    let a = blocks.iter().rposition(|b| b.0 <= s).unwrap();
    let b = blocks.iter().rposition(|b| b.0 <= e).unwrap();
    (a, b)
}
fn block_scope_(sets: usize, full: bool) {
    let d = match sets {
        0 => build([0, 1, 3, 4][sx::pick(4)]),
        1 => stale_doc(sx::pick(5)),
        _ => build(5 + sx::pick(2)),
    };
    let n = end_of(&d);
    let p = sx::range(0, n);
    let a = if full { sx::range(0, n) } else { [p, (p + 1).min(n), (p + 4).min(n), 0][sx::pick(4)] };
    let c = sel(&d, a, p);
    let (p, a) = (c.position(), c.anchor());
    let (s, e) = (p.min(a), p.max(a));
    let mut want = sorted(d.snapshot_flow());
    let before = want.clone();
    let f = any_block_format(full);
    if DBG { dump(&d, "before"); }
    c.set_block_format(&f).unwrap();
    if DBG { dump(&d, "after"); }
    {
        let mut v = vec![];
        flat_mut(&mut want.elements, &mut v);
        let ix: Vec<(usize, usize)> = v.iter().map(|b| (b.position, b.length)).collect();
        let (i, j) = reach_of(&ix, s, e);
        for k in i..=j {
            put(&mut v[k].block_format, &f);
        }
    }
    sx::check(sorted(d.snapshot_flow()) == want, "block format of a range");
    let b = d.blocks();
    let mut v = vec![];
    flat(&want.elements, &mut v);
    for (i, x) in b.iter().enumerate() {
        sx::check(x.block_format() == v[i].block_format, "TextBlock::block_format");
        match d.cursor_at(v[i].position + v[i].length).block_format() {
            Ok(g) => sx::check(g == v[i].block_format, "block_format at the end of a block"),
            Err(_) => sx::fail("block_format failed"),
        }
    }
    sx::reach(1);
    observe_doc(&d);
    d.undo().unwrap();
    sx::check(sorted(d.snapshot_flow()) == before, "block formats after undo");
    d.redo().unwrap();
    sx::check(sorted(d.snapshot_flow()) == want, "block formats after redo");
}
pub fn block_flat() { block_scope_(0, false) }
pub fn block_stale() { block_scope_(1, false) }
pub fn block_struct() { block_scope_(2, false) }
pub fn block_full() { block_scope_(sx::pick(3), true) }

/// a table next to another table and a frame
fn objects_doc() -> TextDocument {
    let d = sym_doc("ab\ncd");
    d.cursor_at(2).insert_table(1, 2).unwrap();
    let n = end_of(&d);
    d.cursor_at(n).insert_table(2, 1).unwrap();
    d.cursor_at(0).insert_frame().unwrap();
    d.clear_undo_redo();
    d
}
/// frame, table and cell formats reach only the object they name
pub fn objects() {
    let d = objects_doc();
    let c = d.cursor();
    if sx::flag() {
        // every object has every format already
        for e in d.flow() {
            match e {
                FlowElement::Table(t) => {
                    let f = TableFormat { border: Some(11), cell_spacing: Some(12), cell_padding: Some(13), width: Some(14), alignment: Some(Alignment::Right), ..Default::default() };
                    c.set_table_format(t.id(), &f).unwrap();
                    for k in t.snapshot().cells {
                        let f = CellFormat { padding: Some(15), border: Some(16), vertical_alignment: Some(CellVerticalAlignment::Middle), background_color: Some(String::from("#333333")), ..Default::default() };
                        c.set_table_cell_format(t.cell(k.row, k.column).unwrap().id(), &f).unwrap();
                    }
                }
                FlowElement::Frame(f) => {
                    let g = FrameFormat { height: Some(17), width: Some(18), top_margin: Some(19), bottom_margin: Some(20), left_margin: Some(21), right_margin: Some(22), padding: Some(23), border: Some(24), is_blockquote: Some(true), ..Default::default() };
                    c.set_frame_format(f.id(), &g).unwrap();
                }
                _ => {}
            }
        }
    }
    let mut want = sorted(d.snapshot_flow());
    let before = want.clone();
    let x = sx::sym(0, 500) as i32;
    let mut tables: Vec<usize> = vec![];
    let mut frame = 0;
    for (i, e) in want.elements.iter().enumerate() {
        match e {
            FlowElementSnapshot::Table(_) => tables.push(i),
            FlowElementSnapshot::Frame(_) => frame = i,
            _ => {}
        }
    }
    match sx::pick(4) {
        0 => {
            let k = tables[sx::pick(2)];
            let f = match sx::pick(5) {
                0 => TableFormat { border: Some(x), ..Default::default() },
                1 => TableFormat { cell_spacing: Some(x), alignment: Some(Alignment::Center), ..Default::default() },
                2 => TableFormat { cell_padding: Some(x), ..Default::default() },
                3 => TableFormat { alignment: Some(Alignment::Left), ..Default::default() },
                _ => TableFormat { width: Some(x), ..Default::default() },
            };
            if let FlowElementSnapshot::Table(t) = &mut want.elements[k] {
                c.set_table_format(t.table_id, &f).unwrap();
                macro_rules! put { ($($n:ident),*) => { $(if f.$n.is_some() { t.format.$n = f.$n.clone(); })* } }
                put!(border, cell_spacing, cell_padding, width, alignment);
            }
            sx::reach(1);
        }
        1 => {
            let k = tables[sx::pick(2)];
            let f = match sx::pick(5) {
                0 => CellFormat { padding: Some(x), vertical_alignment: Some(CellVerticalAlignment::Bottom), ..Default::default() },
                1 => CellFormat { padding: Some(x), ..Default::default() },
                2 => CellFormat { border: Some(x), ..Default::default() },
                3 => CellFormat { vertical_alignment: Some(CellVerticalAlignment::Top), ..Default::default() },
                _ => CellFormat { background_color: Some(String::from("#222222")), ..Default::default() },
            };
            if let FlowElementSnapshot::Table(t) = &mut want.elements[k] {
                let i = sx::pick(2);
                let (r, q) = (t.cells[i].row, t.cells[i].column);
                let Some(FlowElement::Table(tt)) = d.flow().into_iter().nth(k) else { panic!("no table at element {k}") };
                let id = tt.cell(r, q).unwrap().id();
                c.set_table_cell_format(id, &f).unwrap();
                let g = &mut t.cells[i].format;
                macro_rules! put { ($($n:ident),*) => { $(if f.$n.is_some() { g.$n = f.$n.clone(); })* } }
                put!(padding, border, vertical_alignment, background_color);
            }
            sx::reach(2);
        }
        2 => {
            let one = sx::pick(10);
            let on = |k: usize| (one == k).then_some(x);
            let f = match one {
                9 => FrameFormat { height: Some(x), width: Some(7), padding: Some(8), border: Some(4), is_blockquote: Some(sx::flag()), ..Default::default() },
                _ => FrameFormat {
                    height: on(0),
                    width: on(1),
                    top_margin: on(2),
                    bottom_margin: on(3),
                    left_margin: on(4),
                    right_margin: on(5),
                    padding: on(6),
                    border: on(7),
                    is_blockquote: (one == 8).then(sx::flag),
                    ..Default::default()
                },
            };
            if let FlowElementSnapshot::Frame(t) = &mut want.elements[frame] {
                c.set_frame_format(t.frame_id, &f).unwrap();
                let g = &mut t.format;
                macro_rules! put { ($($n:ident),*) => { $(if f.$n.is_some() { g.$n = f.$n.clone(); })* } }
                put!(height, width, top_margin, bottom_margin, left_margin, right_margin, padding, border, is_blockquote);
            }
            sx::reach(3);
        }
        _ => {
            // through the caret
            let k = tables[sx::pick(2)];
            if let FlowElementSnapshot::Table(t) = &mut want.elements[k] {
                let i = sx::pick(2);
                let c = d.cursor_at(t.cells[i].blocks[0].position);
                let f = CellFormat { padding: Some(x), ..Default::default() };
                let g = TableFormat { border: Some(x), ..Default::default() };
                c.begin_edit_block();
                c.set_current_cell_format(&f).unwrap();
                c.set_current_table_format(&g).unwrap();
                c.end_edit_block();
                t.cells[i].format.padding = Some(x);
                t.format.border = Some(x);
            }
            sx::reach(4);
        }
    }
    sx::check(sorted(d.snapshot_flow()) == want, "format of one object");
    d.undo().unwrap();
    sx::check(sorted(d.snapshot_flow()) == before, "object formats after undo");
    d.redo().unwrap();
    sx::check(sorted(d.snapshot_flow()) == want, "object formats after redo");
    observe_doc(&d);
}

/// (text, block format, list and its position) of every block
#[derive(PartialEq, Clone)]
struct Para {
    text: String,
    fmt: BlockFormat,
    list: Option<usize>,
}
fn paras(d: &TextDocument) -> Vec<Para> {
    d.blocks()
        .iter()
        .map(|b| Para { text: b.text(), fmt: b.block_format(), list: b.list().map(|l| l.id()) })
        .collect()
}
fn para_at(v: &[Para], p: usize) -> (usize, usize) {
    let mut pos = 0;
    for (i, x) in v.iter().enumerate() {
        let n = nchars(&x.text);
        if p <= pos + n {
            return (i, p - pos);
        }
        pos += n + 1;
    }
    unreachable!()
}
fn formats_doc() -> TextDocument {
    let d = sym_doc("ab\nc\n\nd\u{e9}");
    sel(&d, 0, 0).set_block_format(&BlockFormat { heading_level: Some(1), alignment: Some(Alignment::Center), ..Default::default() }).unwrap();
    sel(&d, 3, 4).create_list(ListStyle::Decimal).unwrap();
    sel(&d, 5, 5).set_block_format(&BlockFormat { is_code_block: Some(true), code_language: Some(String::from("c")), left_margin: Some(4), ..Default::default() }).unwrap();
    sel(&d, 6, 6).set_block_format(&BlockFormat { indent: Some(2), line_height: Some(1.25), direction: Some(TextDirection::RightToLeft), marker: Some(MarkerType::Unchecked), ..Default::default() }).unwrap();
    d.clear_undo_redo();
    d
}
/// a split gives both halves the block's format and list, a join keeps the
/// first block's; every other block is untouched
fn travel_step(d: &TextDocument, want: &mut Vec<Para>) {
    let n = end_of(d);
    let s = sx::range(0, n);
    let e = (s + [0, 1, 3][sx::pick(3)]).min(n);
    let c = sel(d, e, s);
    barrier();
    let join = |v: &mut Vec<Para>, s: usize, e: usize| {
        let (i, a) = para_at(v, s);
        let (j, b) = para_at(v, e);
        let mut t = sub(&v[i].text, 0, a);
        t.push_str(&sub(&v[j].text, b, nchars(&v[j].text)));
        v[i].text = t;
        v.drain(i + 1..=j);
    };
    match sx::pick(4) {
        0 => {
            c.insert_block().unwrap();
            join(want, s, e);
            let (i, a) = para_at(want, s);
            let mut second = want[i].clone();
            second.text = sub(&want[i].text, a, nchars(&want[i].text));
            want[i].text = sub(&want[i].text, 0, a);
            want.insert(i + 1, second);
        }
        1 => {
            c.insert_text("z").unwrap();
            join(want, s, e);
            let (i, a) = para_at(want, s);
            let mut t = sub(&want[i].text, 0, a);
            t.push('z');
            t.push_str(&sub(&want[i].text, a, nchars(&want[i].text)));
            want[i].text = t;
        }
        2 => {
            c.delete_char().unwrap();
            join(want, s, if s == e { (s + 1).min(n) } else { e });
        }
        _ => {
            c.delete_previous_char().unwrap();
            if s == e { join(want, s.saturating_sub(1), s) } else { join(want, s, e) }
        }
    }
}
pub fn block_travel() {
    let d = formats_doc();
    let base = paras(&d);
    let mut want = base.clone();
    travel_step(&d, &mut want);
    if DBG { dump(&d, "after"); }
    sx::check(paras(&d) == want, "block formats after a text edit");
    sx::reach(1);
    observe_doc(&d);
    if d.can_undo() {
        d.undo().unwrap();
        sx::check(paras(&d) == base, "block formats after undo");
        d.redo().unwrap();
        sx::check(paras(&d) == want, "block formats after redo");
    }
}
pub fn block_travel2() {
    let d = formats_doc();
    let mut want = paras(&d);
    travel_step(&d, &mut want);
    travel_step(&d, &mut want);
    sx::check(paras(&d) == want, "block formats after two text edits");
    sx::reach(1);
    observe_doc(&d);
}

// ------------------------------------------------------------------ lists

#[derive(Clone, PartialEq)]
struct L {
    id: usize,
    style: ListStyle,
    indent: u8,
    prefix: String,
    suffix: String,
}
/// the lists as a client sees them: lists by id, and the list of every block
#[derive(Clone)]
struct Model {
    lists: Vec<L>,
    of: Vec<(usize, Option<usize>)>,
}
fn roman(n: usize) -> &'static str {
    ["", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX"][n]
}
fn marker(l: &L, i: usize) -> String {
    let n = i + 1;
    let mut s = l.prefix.clone();
    match l.style {
        ListStyle::Disc => s.push('\u{2022}'),
        ListStyle::Circle => s.push('\u{25e6}'),
        ListStyle::Square => s.push('\u{25aa}'),
        ListStyle::Decimal => s.push((b'0' + n as u8) as char),
        ListStyle::LowerAlpha => s.push((b'a' + i as u8) as char),
        ListStyle::UpperAlpha => s.push((b'A' + i as u8) as char),
        ListStyle::LowerRoman => s.push_str(&roman(n).to_lowercase()),
        ListStyle::UpperRoman => s.push_str(roman(n)),
    }
    s.push_str(&l.suffix);
    s
}
fn style(k: usize) -> ListStyle {
    [ListStyle::Disc, ListStyle::Decimal, ListStyle::LowerAlpha, ListStyle::UpperRoman, ListStyle::Circle, ListStyle::Square, ListStyle::UpperAlpha, ListStyle::LowerRoman][k].clone()
}
fn see(d: &TextDocument) -> Model {
    let mut m = Model { lists: vec![], of: vec![] };
    for b in d.blocks() {
        let l = b.list();
        if let Some(l) = &l {
            if !m.lists.iter().any(|x| x.id == l.id()) {
                m.lists.push(L { id: l.id(), style: l.style(), indent: l.indent(), prefix: l.prefix(), suffix: l.suffix() });
            }
        }
        m.of.push((b.id(), l.map(|l| l.id())));
    }
    m
}
/// every list query agrees with the model
fn lists_agree(d: &TextDocument, m: &Model) {
    let blocks = d.blocks();
    sx::check(blocks.len() == m.of.len(), "number of blocks");
    for (i, b) in blocks.iter().enumerate() {
        sx::check(b.id() == m.of[i].0, "order of blocks");
        sx::check(b.list().map(|l| l.id()) == m.of[i].1, "list of a block");
        let sn = b.snapshot();
        match m.of[i].1 {
            None => {
                sx::check(sn.list_info.is_none(), "list_info of a plain block");
                sx::check(b.list_item_index().is_none(), "list_item_index of a plain block");
                sx::check(d.cursor_at(b.position()).current_list().is_none(), "current_list of a plain block");
            }
            Some(id) => {
                let l = m.lists.iter().find(|l| l.id == id).unwrap();
                let members: Vec<usize> = m.of.iter().filter(|x| x.1 == Some(id)).map(|x| x.0).collect();
                let k = members.iter().position(|x| *x == b.id()).unwrap();
                let t = b.list().unwrap();
                sx::check(t.style() == l.style && t.indent() == l.indent && t.prefix() == l.prefix && t.suffix() == l.suffix, "list format");
                let f = t.format();
                sx::check(f.style == Some(l.style.clone()) && f.indent == Some(l.indent) && f.prefix.as_ref() == Some(&l.prefix) && f.suffix.as_ref() == Some(&l.suffix), "TextList::format");
                sx::check(t.count() == members.len(), "TextList::count");
                sx::check(b.list_item_index() == Some(k), "list_item_index");
                match t.item(k) {
                    Some(x) => sx::check(x.id() == b.id(), "TextList::item"),
                    None => sx::fail("TextList::item is none"),
                }
                sx::check(t.item(members.len()).is_none(), "TextList::item past the end");
                sx::check(t.item_marker(k) == marker(l, k), "TextList::item_marker");
                match &sn.list_info {
                    Some(i) => sx::check(i.list_id == id && i.style == l.style && i.indent == l.indent && i.item_index == k && i.marker == marker(l, k), "list_info"),
                    None => sx::fail("list_info is none"),
                }
                match d.cursor_at(b.position() + b.length()).current_list() {
                    Some(x) => sx::check(x.id() == id, "current_list"),
                    None => sx::fail("current_list is none"),
                }
            }
        }
    }
}
fn lists_doc(k: usize) -> TextDocument {
    match k {
        0 => {
            let d = sym_doc("ab\nc\n\nd\u{e9}");
            sel(&d, 0, 3).create_list(ListStyle::LowerAlpha).unwrap();
            sel(&d, 6, 6).create_list(ListStyle::Disc).unwrap();
            d
        }
        1 => {
            let d = sym_doc("ab\nc\n\nd\u{e9}");
            d.cursor_at(1).insert_text("xyz").unwrap();
            d
        }
        2 => {
            let d = build(5);
            d.cursor_at(4).insert_block().unwrap();
            d
        }
        _ => {
            let d = build(6);
            sel(&d, 0, 1).create_list(ListStyle::Decimal).unwrap();
            d
        }
    }
}
/// one list operation; the model follows
fn list_step(d: &TextDocument, m: &mut Model, full: bool) {
    let n = end_of(d);
    let p = sx::range(0, n);
    let blocks: Vec<(usize, usize)> = d.blocks().iter().map(|b| (b.position(), b.length())).collect();
    let at = blocks.iter().rposition(|b| b.0 <= p).unwrap();
    let c = d.cursor_at(p);
    let cur = m.of[at].1;
    barrier();
    match sx::pick(6) {
        0 => {
            let a = if full { sx::range(0, n) } else { [p, (p + 3).min(n)][sx::pick(2)] };
            let st = style(sx::pick(if full { 8 } else { 2 }));
            let c = sel(d, a, p);
            let (s, e) = (c.position().min(c.anchor()), c.position().max(c.anchor()));
            c.create_list(st.clone()).unwrap();
            let (i, j) = reach_of(&blocks, s, e);
            let id = match d.blocks()[i].list() {
                Some(l) => l.id(),
                None => sx::fail("create_list made no list"),
            };
            sx::check(!m.lists.iter().any(|l| l.id == id), "create_list reused a list");
            m.lists.push(L { id, style: st, indent: 0, prefix: String::new(), suffix: String::new() });
            for k in i..=j {
                m.of[k].1 = Some(id);
            }
            sx::reach(1);
        }
        1 => {
            let st = style(sx::pick(2));
            c.insert_list(st.clone()).unwrap();
            let b = &d.blocks()[at + 1];
            sx::check(b.is_empty(), "insert_list: new item is not empty");
            sx::check(c.position() == b.position(), "insert_list: caret");
            let id = match b.list() {
                Some(l) => l.id(),
                None => sx::fail("insert_list made no item"),
            };
            m.lists.push(L { id, style: st, indent: 0, prefix: String::new(), suffix: String::new() });
            m.of.insert(at + 1, (b.id(), Some(id)));
            sx::reach(2);
        }
        2 => {
            let r = c.remove_current_block_from_list();
            sx::check(r.is_ok() == cur.is_some(), "remove from list: refusal");
            m.of[at].1 = None;
            sx::reach(3);
        }
        3 => {
            if m.lists.is_empty() {
                return;
            }
            let k = sx::pick(m.lists.len());
            let id = m.lists[k].id;
            if !m.of.iter().any(|x| x.1 == Some(id)) {
                return;
            }
            c.add_current_block_to_list(id).unwrap();
            m.of[at].1 = Some(id);
            sx::reach(4);
        }
        4 => {
            let f = match sx::pick(3) {
                0 => ListFormat { style: Some(style(2 + sx::pick(6))), ..Default::default() },
                1 => ListFormat { indent: Some(sx::sym(0, 200) as u8), suffix: Some(String::from(".")), ..Default::default() },
                _ => ListFormat { prefix: Some(String::from("(")), suffix: Some(String::from(")")), ..Default::default() },
            };
            let r = c.set_current_list_format(&f);
            sx::check(r.is_ok() == cur.is_some(), "set_current_list_format: refusal");
            if let Some(id) = cur {
                for l in m.lists.iter_mut() {
                    if l.id == id {
                        if let Some(s) = &f.style { l.style = s.clone(); }
                        if let Some(s) = f.indent { l.indent = s; }
                        if let Some(s) = &f.prefix { l.prefix = s.clone(); }
                        if let Some(s) = &f.suffix { l.suffix = s.clone(); }
                    }
                }
            }
            sx::reach(5);
        }
        _ => {
            // Enter inside a list continues it
            c.insert_block().unwrap();
            let b = &d.blocks()[at + 1];
            m.of.insert(at + 1, (b.id(), cur));
            sx::reach(6);
        }
    }
}
fn list_one(sets: usize, full: bool) {
    let d = lists_doc(if sets == 0 { sx::pick(2) } else { 2 + sx::pick(2) });
    d.clear_undo_redo();
    let mut m = see(&d);
    let before = m.clone();
    lists_agree(&d, &m);
    let text = plain(&d);
    list_step(&d, &mut m, full);
    if DBG { dump(&d, "after"); }
    lists_agree(&d, &m);
    observe_doc(&d);
    if d.can_undo() {
        d.undo().unwrap();
        lists_agree(&d, &before);
        sx::check(plain(&d) == text, "text after undo");
    }
}
pub fn list_flat() { list_one(0, false) }
pub fn list_struct() { list_one(1, false) }
pub fn list_full() { list_one(sx::pick(2), true) }
/// two operations on three short paragraphs
pub fn list_two() {
    let d = plain_doc("a\n\nb");
    sel(&d, 0, 1).create_list(ListStyle::Decimal).unwrap();
    let mut m = see(&d);
    list_step(&d, &mut m, false);
    list_step(&d, &mut m, false);
    lists_agree(&d, &m);
    observe_doc(&d);
    sx::reach(7);
}
/// markers for large item numbers
pub fn list_markers() {
    let d = plain_doc("a");
    d.cursor().create_list(ListStyle::Decimal).unwrap();
    let l = d.cursor().current_list().unwrap();
    let k = sx::pick(8);
    let st = [ListStyle::Decimal, ListStyle::LowerAlpha, ListStyle::UpperAlpha, ListStyle::UpperRoman, ListStyle::LowerRoman, ListStyle::Disc, ListStyle::Circle, ListStyle::Square][k].clone();
    let (pre, suf) = if sx::flag() { ("(", ")") } else { ("", "") };
    let fix = |s: &str| (!s.is_empty()).then(|| s.to_string());
    d.cursor().set_list_format(l.id(), &ListFormat { style: Some(st), prefix: fix(pre), suffix: fix(suf), ..Default::default() }).unwrap();
    let n = sx::range(1, 120);
    let m = l.item_marker(n - 1);
    sx::check(m.starts_with(pre) && m.ends_with(suf), "marker without its prefix or suffix");
    let s = &m[pre.len()..m.len() - suf.len()];
    let dec = |t: &str| t.trim_end_matches('.').parse::<usize>();
    match k {
        0 => sx::check(dec(s) == Ok(n), "decimal marker"),
        1 | 2 => {
            let first = if k == 1 { b'a' } else { b'A' };
            if n <= 26 {
                sx::check(s.trim_end_matches('.').as_bytes() == [first + n as u8 - 1], "alphabetic marker");
            } else {
                // beyond the alphabet: the number, or more letters
                sx::check(dec(s) == Ok(n) || s.len() >= 2, "alphabetic marker beyond the alphabet");
            }
        }
        3 | 4 => {
            let mut want = String::new();
            let mut v = n;
            for (x, t) in [(100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
                while v >= x {
                    want.push_str(t);
                    v -= x;
                }
            }
            if k == 4 {
                want.make_ascii_lowercase();
            }
            sx::check(s.trim_end_matches('.') == want, "roman marker");
        }
        _ => {
            sx::check(s.chars().count() == 1 && !s.chars().all(|c| c.is_ascii_alphanumeric()), "bullet marker");
            sx::check(m == l.item_marker(0), "bullets differ");
        }
    }
    sx::reach(8);
    sx::observe_str(&m);
}
