//! C14: the events a document sends tell all that changed, once, in order.
use crate::docs::*;
use crate::ops::*;
use crate::sx;
use crate::util::*;
use text_document::FormatChangeKind;
use std::sync::{Arc, Mutex};

/// what a view keeps of a document
#[derive(Clone, PartialEq)]
struct Cell {
    ch: char,
    f: TextFormat,
    /// of the paragraph; `None` where an edit touched the paragraph
    para: Option<(BlockFormat, Option<usize>)>,
}
/// what a listener knows: `None` where it was told that something changed
struct Mirror {
    cells: Vec<Option<Cell>>,
    flow: Vec<Option<(bool, usize)>>,
    blocks: usize,
    undo: (bool, bool),
    modified: bool,
    /// everything a view shows, until an event tells of a change
    snap: Option<FlowSnapshot>,
}
fn cells(d: &TextDocument) -> Vec<Option<Cell>> {
    let flow = d.snapshot_flow();
    let mut fl = vec![];
    flat(&flow.elements, &mut fl);
    let mut out = vec![];
    for b in fl {
        let list = b.list_info.as_ref().map(|l| l.list_id);
        let mut put = |ch, f| {
            out.push(Some(Cell { ch, f, para: Some((b.block_format.clone(), list)) }));
        };
        for f in &b.fragments {
            match f {
                FragmentContent::Text { text, format, .. } => {
                    for c in text.chars() {
                        put(c, format.clone());
                    }
                }
                FragmentContent::Image { format, .. } => put('\u{fffc}', format.clone()),
            }
        }
        put('\n', TextFormat::default());
    }
    out
}
fn flow_ids(d: &TextDocument) -> Vec<Option<(bool, usize)>> {
    d.flow()
        .iter()
        .map(|e| {
            Some(match e {
                FlowElement::Block(b) => (true, b.id()),
                FlowElement::Table(t) => (false, t.id()),
                FlowElement::Frame(f) => (false, f.id()),
            })
        })
        .collect()
}
fn mirror(d: &TextDocument) -> Mirror {
    Mirror {
        cells: cells(d),
        flow: flow_ids(d),
        blocks: d.block_count(),
        undo: (d.can_undo(), d.can_redo()),
        modified: d.is_modified(),
        snap: Some(d.snapshot_flow()),
    }
}
/// a format of something other than text: of a table, a cell, a frame or a list
fn object_format(d: &TextDocument, c: &TextCursor) {
    for e in d.flow() {
        match e {
            FlowElement::Table(t) => {
                if sx::flag() {
                    c.set_table_format(t.id(), &TableFormat { border: Some(4), ..Default::default() }).unwrap();
                } else {
                    let id = t.cell(0, 1).unwrap().id();
                    c.set_table_cell_format(id, &CellFormat { padding: Some(9), ..Default::default() }).unwrap();
                }
                return;
            }
            FlowElement::Frame(f) => {
                c.set_frame_format(f.id(), &FrameFormat { padding: Some(3), is_blockquote: Some(true), ..Default::default() }).unwrap();
                return;
            }
            _ => {}
        }
    }
    let _ = c.set_current_list_format(&ListFormat { style: Some(ListStyle::UpperRoman), suffix: Some(")".to_string()), ..Default::default() });
}
fn bad(op: &str, m: &str) -> ! {
    let mut s = String::from(op);
    s.push_str(": ");
    s.push_str(m);
    sx::fail(&s)
}
impl Mirror {
    /// `exact`: the events of this edit give the very places that changed
    fn hear(&mut self, e: &DocumentEvent, op: &str, d: &TextDocument, exact: bool) {
        let what = matches!(
            e,
            DocumentEvent::ContentsChanged { .. }
                | DocumentEvent::FormatChanged { .. }
                | DocumentEvent::DocumentReset
                | DocumentEvent::FlowElementsInserted { .. }
                | DocumentEvent::FlowElementsRemoved { .. }
                | DocumentEvent::BlockCountChanged(_)
        );
        if what {
            self.snap = None;
            if !exact {
                self.cells = cells(d);
            }
        }
        match e {
            DocumentEvent::ContentsChanged { .. } | DocumentEvent::FormatChanged { .. } if !exact => {}
            DocumentEvent::ContentsChanged { position, chars_removed, chars_added, .. } => {
                let n = self.cells.len();
                if position + chars_removed > n {
                    bad(op, "more text removed than there was");
                }
                self.cells.splice(*position..position + chars_removed, (0..*chars_added).map(|_| None));
                // the paragraphs around it may have been joined
                let br = |c: &Option<Cell>| c.as_ref().is_some_and(|c| c.ch == '\n');
                let (mut s, mut e) = (*position, position + chars_added);
                while s > 0 && !br(&self.cells[s - 1]) {
                    s -= 1;
                }
                while e < self.cells.len() && !br(&self.cells[e]) {
                    e += 1;
                }
                for c in self.cells[s..].iter_mut().take(e + 1 - s).flatten() {
                    c.para = None;
                }
            }
            DocumentEvent::FormatChanged { position, length, kind } => {
                let n = self.cells.len();
                let (mut s, mut e) = (*position, (position + length).min(n));
                if *kind != FormatChangeKind::Character {
                    // whole paragraphs
                    let br = |c: &Option<Cell>| c.as_ref().is_some_and(|c| c.ch == '\n');
                    while s > 0 && !br(&self.cells[s - 1]) {
                        s -= 1;
                    }
                    while e < n && !br(&self.cells[e]) {
                        e += 1;
                    }
                    e = (e + 1).min(n);
                }
                for c in s..e {
                    self.cells[c] = None;
                }
            }
            DocumentEvent::BlockCountChanged(n) => self.blocks = *n,
            DocumentEvent::FlowElementsInserted { flow_index, count } => {
                if *flow_index > self.flow.len() {
                    bad(op, "elements inserted behind the end");
                }
                self.flow.splice(*flow_index..*flow_index, (0..*count).map(|_| None));
            }
            DocumentEvent::FlowElementsRemoved { flow_index, count } => {
                if *flow_index + *count > self.flow.len() {
                    bad(op, "more elements removed than there were");
                }
                self.flow.drain(*flow_index..*flow_index + *count);
            }
            DocumentEvent::DocumentReset => {
                self.cells = cells(d);
                self.flow = flow_ids(d);
            }
            DocumentEvent::UndoRedoChanged { can_undo, can_redo } => self.undo = (*can_undo, *can_redo),
            DocumentEvent::ModificationChanged(m) => self.modified = *m,
            _ => {}
        }
    }
    fn check(&self, op: &str, d: &TextDocument) {
        let f = flow_ids(d);
        if self.flow.len() != f.len() {
            bad(op, "the listener has another number of flow elements");
        }
        for (a, b) in self.flow.iter().zip(&f) {
            if a.is_some() && a != b {
                bad(op, "a flow element changed unheard");
            }
        }
        if self.blocks != d.block_count() {
            bad(op, "the listener has another block count");
        }
        if self.undo != (d.can_undo(), d.can_redo()) {
            bad(op, "undo or redo became available or not unheard");
        }
        if self.modified != d.is_modified() {
            bad(op, "the modified flag changed unheard");
        }
        if let Some(s) = &self.snap {
            if *s != d.snapshot_flow() {
                bad(op, "the document changed unheard");
            }
        }
        let c = cells(d);
        if c.len() != self.cells.len() {
            bad(op, "the listener has a text of another length");
        }
        for (a, b) in self.cells.iter().zip(&c) {
            if let (Some(a), Some(b)) = (a, b) {
                if a.ch != b.ch {
                    bad(op, "a text changed unheard");
                }
                if a.f != b.f {
                    bad(op, "a character format changed unheard");
                }
                if let (Some(a), Some(b)) = (&a.para, &b.para) {
                    if a.0 != b.0 {
                        bad(op, "a block format changed unheard");
                    }
                    if a.1 != b.1 {
                        bad(op, "a list changed unheard");
                    }
                }
            }
        }
    }
}
fn run(kinds: &[usize], steps: usize, anchors: usize) {
    let k = kinds[sx::pick(kinds.len())];
    let d = build(k);
    d.set_modified(false);
    let _ = d.poll_events();
    let heard: Arc<Mutex<Vec<DocumentEvent>>> = Arc::new(Mutex::new(vec![]));
    let h = heard.clone();
    let sub = d.on_change(move |e| h.lock().unwrap().push(e));
    let mut m = mirror(&d);
    let go = |op: &str, m: &mut Mirror, exact: bool| {
        let polled = d.poll_events();
        let called: Vec<DocumentEvent> = heard.lock().unwrap().drain(..).collect();
        if polled != called {
            bad(op, "polling and the callback tell different things");
        }
        for e in &polled {
            m.hear(e, op, &d, exact);
        }
        m.check(op, &d);
        if !d.poll_events().is_empty() {
            bad(op, "an event is told twice");
        }
    };
    for _ in 0..steps {
        let n = end_of(&d);
        let p = sx::range(0, n);
        let a = match sx::pick(anchors) {
            0 => p,
            1 => 0,
            _ => n,
        };
        let c = sel(&d, a, p);
        let op = sx::pick(N_OPS + 6);
        sx::assume(op != 6);
        barrier();
        m = mirror(&d);
        match op {
            0..N_OPS => {
                apply(op, &d, &c);
                go(NAMES[op], &mut m, k < 5 && op <= 13);
            }
            26 => {
                let _ = d.undo();
                go("undo", &mut m, false);
            }
            27 => {
                let _ = if sx::flag() { d.set_plain_text("new") } else { d.clear() };
                go("set_plain_text", &mut m, true);
            }
            28 => {
                object_format(&d, &c);
                go("an object's format", &mut m, false);
            }
            29 => {
                c.begin_edit_block();
                if sx::flag() {
                    let _ = c.insert_text("q");
                    let _ = c.insert_block();
                }
                c.end_edit_block();
                go("an edit block", &mut m, k < 5);
            }
            30 => {
                d.clear_undo_redo();
                go("clear_undo_redo", &mut m, true);
            }
            _ => {
                d.set_modified(sx::flag());
                go("set_modified", &mut m, true);
            }
        }
    }
    m = mirror(&d);
    let _ = d.undo();
    go("undo", &mut m, false);
    m = mirror(&d);
    let _ = d.redo();
    go("redo", &mut m, false);
    // nobody is told after the subscription ended
    drop(sub);
    d.cursor_at(0).insert_text("q").unwrap();
    sx::check(heard.lock().unwrap().is_empty(), "a callback is called after its subscription ended");
    sx::check(!d.poll_events().is_empty(), "an edit is not told");
}
pub fn flat_docs() {
    run(&[0, 1, 3, 4], 1, 3);
}
pub fn structured() {
    run(&[5, 6], 1, 2);
}
pub fn two() {
    run(&[0, 3, 5], 2, 1);
}
