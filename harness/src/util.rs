//! Shared pieces of the harnesses: document builders, the observable state of
//! a document, and the coherence relation between its views.
use crate::sx;
pub use text_document::*;

pub fn a(m: MoveMode) -> MoveMode {
    m
}
pub const MOVE: MoveMode = MoveMode::MoveAnchor;
pub const KEEP: MoveMode = MoveMode::KeepAnchor;

/// A cursor with exactly the given anchor and position.
pub fn sel(doc: &TextDocument, anchor: usize, pos: usize) -> TextCursor {
    let c = doc.cursor();
    c.set_position(anchor, MOVE);
    if pos != anchor {
        c.set_position(pos, KEEP);
    }
    c
}

/// A symbolic ASCII lower-case letter.
pub fn letter() -> char {
    sx::sym(b'a' as u64, b'z' as u64) as u8 as char
}
/// A string of `n` symbolic letters.
pub fn letters(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(letter());
    }
    s
}
/// One of several characters that differ in encoded size and class.
pub const KINDS: [char; 5] = ['k', '\u{e9}', '\u{4e2d}', '\u{1f642}', ' '];
pub fn any_kind(n: usize) -> char {
    KINDS[sx::pick(n)]
}

pub fn plain(doc: &TextDocument) -> String {
    match doc.to_plain_text() {
        Ok(s) => s,
        Err(_) => sx::fail("to_plain_text failed"),
    }
}

/// Everything a reader of the document can see.
#[derive(PartialEq, Clone)]
pub struct State {
    pub flow: FlowSnapshot,
    pub plain: String,
    pub stats: DocumentStats,
    pub title: String,
    pub blocks: Vec<(usize, usize, usize, String)>,
}

pub fn state(doc: &TextDocument) -> State {
    State {
        flow: doc.snapshot_flow(),
        plain: plain(doc),
        stats: doc.stats(),
        title: doc.title(),
        blocks: doc
            .blocks()
            .iter()
            .map(|b| (b.id(), b.position(), b.length(), b.text()))
            .collect(),
    }
}

/// Which part of two states differs (0 = none).
pub fn state_diff(a: &State, b: &State) -> u32 {
    if a.plain != b.plain {
        return 1;
    }
    if a.stats != b.stats {
        return 2;
    }
    if a.blocks != b.blocks {
        return 3;
    }
    if a.flow != b.flow {
        return 4;
    }
    if a.title != b.title {
        return 5;
    }
    0
}

pub fn check_same(a: &State, b: &State, m: &str) {
    let d = state_diff(a, b);
    if d != 0 {
        let what = ["", "plain text", "stats", "blocks", "flow", "title"][d as usize];
        let mut s = String::from(m);
        s.push_str(": ");
        s.push_str(what);
        s.push_str(" differs");
        sx::fail(&s);
    }
}

/// all block snapshots of a flow in document order
pub fn flat<'a>(els: &'a [FlowElementSnapshot], out: &mut Vec<&'a BlockSnapshot>) {
    for e in els {
        match e {
            FlowElementSnapshot::Block(b) => out.push(b),
            FlowElementSnapshot::Table(t) => {
                let mut cells: Vec<&CellSnapshot> = t.cells.iter().collect();
                cells.sort_by_key(|c| (c.row, c.column));
                for c in cells {
                    for b in &c.blocks {
                        out.push(b);
                    }
                }
            }
            FlowElementSnapshot::Frame(f) => flat(&f.elements, out),
        }
    }
}

pub fn nchars(s: &str) -> usize {
    s.chars().count()
}
pub fn sub(s: &str, from: usize, to: usize) -> String {
    s.chars().skip(from).take(to - from).collect()
}

pub fn check_fragments(text: &str, frags: &[FragmentContent]) {
    let mut off = 0usize;
    let mut cat = String::new();
    let mut prev: Option<&TextFormat> = None;
    for f in frags {
        match f {
            FragmentContent::Text {
                text,
                format,
                offset,
                length,
                ..
            } => {
                sx::check(*offset == off, "fragment offset is not contiguous");
                sx::check(*length == nchars(text), "fragment length");
                sx::check(*length > 0, "empty fragment");
                let _ = prev;
                prev = Some(format);
                off += *length;
                cat.push_str(text);
            }
            FragmentContent::Image { offset, .. } => {
                sx::check(*offset == off, "image offset is not contiguous");
                prev = None;
                off += 1;
                cat.push('\u{fffc}');
            }
        }
    }
    sx::check(cat == text, "fragments do not concatenate to the block text");
}

/// The views of the document agree with each other.
pub fn coherent(doc: &TextDocument) {
    let flow = doc.snapshot_flow();
    let mut fl = Vec::new();
    flat(&flow.elements, &mut fl);
    let text = plain(doc);
    let stats = doc.stats();
    let blocks = doc.blocks();
    sx::check(!blocks.is_empty(), "a document has at least one block");
    sx::check(blocks.len() == stats.block_count, "stats.block_count");
    sx::check(doc.block_count() == stats.block_count, "block_count()");
    sx::check(
        doc.character_count() == stats.character_count,
        "character_count()",
    );
    sx::check(fl.len() == blocks.len(), "flow and blocks() size");
    let mut pos = 0usize;
    let mut total = 0usize;
    let mut joined = String::new();
    for (i, b) in blocks.iter().enumerate() {
        let t = b.text();
        let n = nchars(&t);
        sx::check(b.length() == n, "block length");
        sx::check(b.is_empty() == (n == 0), "block is_empty");
        sx::check(b.position() == pos, "block position");
        sx::check(b.block_number() == i, "block_number");
        let f = fl[i];
        sx::check(f.block_id == b.id(), "flow block id");
        sx::check(f.text == t, "flow block text");
        sx::check(f.position == pos, "flow block position");
        sx::check(f.length == n, "flow block length");
        check_fragments(&t, &f.fragments);
        sx::check(b.fragments() == f.fragments, "fragments() vs snapshot");
        sx::check(b.snapshot() == *f, "block snapshot vs flow snapshot");
        if i > 0 {
            joined.push('\n');
        }
        joined.push_str(&t);
        pos += n + 1;
        total += n;
        match b.next() {
            Some(x) => sx::check(
                i + 1 < blocks.len() && x.id() == blocks[i + 1].id(),
                "next()",
            ),
            None => sx::check(i + 1 == blocks.len(), "next() ends early"),
        }
        match b.previous() {
            Some(x) => sx::check(i > 0 && x.id() == blocks[i - 1].id(), "previous()"),
            None => sx::check(i == 0, "previous() ends early"),
        }
        match doc.block_by_number(i) {
            Some(x) => sx::check(x.id() == b.id(), "block_by_number"),
            None => sx::fail("block_by_number is none"),
        }
        match doc.block_by_id(b.id()) {
            Some(x) => sx::check(x.is_valid(), "block_by_id valid"),
            None => sx::fail("block_by_id is none"),
        }
    }
    sx::check(doc.block_by_number(blocks.len()).is_none(), "block_by_number past the end");
    sx::check(total == stats.character_count, "stats.character_count");
    sx::check(doc.is_empty() == (total == 0), "is_empty()");
    if stats.table_count == 0 && stats.frame_count == 1 {
        sx::check(joined == text, "to_plain_text vs blocks");
    } else {
        // the same lines; usually grouped by frame, in the order the frames were made
        let mut ix: Vec<usize> = (0..fl.len()).collect();
        ix.sort_by_key(|i| (fl[*i].parent_frame_id, *i));
        let mut g = String::new();
        for (k, i) in ix.iter().enumerate() {
            if k > 0 {
                g.push('\n');
            }
            g.push_str(&fl[*i].text);
        }
        if g != text {
            let mut a: Vec<&str> = joined.split('\n').collect();
            let mut b: Vec<&str> = text.split('\n').collect();
            a.sort();
            b.sort();
            sx::check(a == b, "to_plain_text vs blocks");
        }
    }
    // text_at over the whole space, and from a symbolic start
    let end = pos - 1;
    match doc.text_at(0, end) {
        Ok(s) => sx::check(s == joined, "text_at whole document"),
        Err(_) => sx::fail("text_at failed"),
    }
}

/// position-indexed queries at one position
pub fn coherent_at(doc: &TextDocument, p: usize, l: usize) {
    let blocks = doc.blocks();
    let mut joined = String::new();
    for (i, b) in blocks.iter().enumerate() {
        if i > 0 {
            joined.push('\n');
        }
        joined.push_str(&b.text());
    }
    let end = nchars(&joined);
    match doc.text_at(p, l) {
        Ok(s) => {
            sx::check(p <= end, "text_at out of range succeeded");
            sx::check(s == sub(&joined, p, (p + l).min(end)), "text_at");
        }
        Err(_) => sx::check(p > end, "text_at failed in range"),
    }
    if p > end {
        return;
    }
    // a position at the end of a non-empty block belongs to the next block
    let mut want = 0;
    for (i, b) in blocks.iter().enumerate() {
        let (s, n) = (b.position(), b.length());
        if p >= s && (p < s + n || i + 1 == blocks.len() || (n == 0 && p == s)) {
            want = i;
            break;
        }
        if p == s + n && i + 1 < blocks.len() {
            want = i + 1;
            break;
        }
    }
    let w = &blocks[want];
    match doc.block_at(p) {
        Ok(i) => {
            sx::check(i.block_id == w.id(), "block_at id");
            sx::check(i.block_number == want, "block_at number");
            sx::check(i.start == w.position(), "block_at start");
            sx::check(i.length == w.length(), "block_at length");
        }
        Err(_) => sx::fail("block_at failed"),
    }
    match doc.block_at_position(p) {
        Some(b) => sx::check(b.id() == w.id(), "block_at_position"),
        None => sx::fail("block_at_position is none"),
    }
    match doc.snapshot_block_at_position(p) {
        Some(s) => {
            sx::check(p >= s.position && p <= s.position + s.length, "snapshot_block_at_position range");
            let b = blocks.iter().find(|b| b.id() == s.block_id);
            match b {
                Some(b) => sx::check(b.snapshot() == s, "snapshot_block_at_position vs snapshot"),
                None => sx::fail("snapshot_block_at_position unknown block"),
            }
        }
        None => sx::fail("snapshot_block_at_position is none"),
    }
    let r = doc.blocks_in_range(p, l);
    let exp: Vec<usize> = blocks
        .iter()
        .filter(|b| {
            let (s, e) = (b.position(), b.position() + b.length());
            if l == 0 {
                p >= s && p < e
            } else {
                s < p + l && e > p
            }
        })
        .map(|b| b.id())
        .collect();
    sx::check(
        r.iter().map(|b| b.id()).collect::<Vec<_>>() == exp,
        "blocks_in_range",
    );
    let c = doc.cursor_at(p);
    if c.position() == p {
        // a caret behind the last character of a block is still in that block
        let inb = blocks.iter().rposition(|b| b.position() <= p).unwrap();
        sx::check(c.block_number() == inb, "cursor block_number");
        sx::check(c.position_in_block() == p - blocks[inb].position(), "position_in_block");
        sx::check(c.at_end() == (p == end), "at_end");
        sx::check(c.at_start() == (p == 0), "at_start");
    }
}

/// dev: print a document (native verbose replay only)
pub fn dump(d: &TextDocument, what: &str) {
    let mut s = format!("--- {what}: plain={:?} stats={:?}\n", plain(d), d.stats());
    for b in d.blocks() {
        let sn = b.snapshot();
        s += &format!("  id={} pos={} len={} {:?} list={:?}\n", b.id(), b.position(), b.length(), b.text(), sn.list_info.as_ref().map(|l| &l.marker));
        for f in &sn.fragments {
            s += &match f {
                FragmentContent::Text { text, offset, length, format, .. } => format!("      T {offset}+{length} {text:?} b={:?} i={:?} s={:?}\n", format.font_bold, format.font_italic, format.font_point_size),
                FragmentContent::Image { name, offset, .. } => format!("      I {offset} {name}\n"),
            };
        }
    }
    fn el(e: &FlowElementSnapshot, ind: usize, s: &mut String) {
        let p = " ".repeat(ind);
        match e {
            FlowElementSnapshot::Block(b) => *s += &format!("{p}B {} pos {} {:?}\n", b.block_id, b.position, b.text),
            FlowElementSnapshot::Table(t) => {
                *s += &format!("{p}T {} {}x{}\n", t.table_id, t.rows, t.columns);
                for c in &t.cells {
                    *s += &format!("{p} c {},{} span {},{} {:?}\n", c.row, c.column, c.row_span, c.column_span, c.blocks.iter().map(|b| (b.block_id, b.position, b.text.clone())).collect::<Vec<_>>());
                }
            }
            FlowElementSnapshot::Frame(f) => {
                *s += &format!("{p}F {}\n", f.frame_id);
                for e in &f.elements {
                    el(e, ind + 2, s)
                }
            }
        }
    }
    for e in &d.snapshot_flow().elements {
        el(e, 2, &mut s);
    }
    sx::note(&s);
}

/// the same state with entity ids replaced by their order of appearance
/// (operations that are re-done may create entities under fresh ids)
pub fn canon(s: &State) -> State {
    struct M(Vec<(u8, usize)>);
    impl M {
        fn id(&mut self, k: u8, v: usize) -> usize {
            match self.0.iter().position(|x| *x == (k, v)) {
                Some(i) => i,
                None => {
                    self.0.push((k, v));
                    self.0.len() - 1
                }
            }
        }
    }
    fn blk(b: &mut BlockSnapshot, m: &mut M) {
        b.block_id = m.id(0, b.block_id);
        if let Some(f) = &mut b.parent_frame_id {
            *f = m.id(1, *f);
        }
        if let Some(t) = &mut b.table_cell {
            t.table_id = m.id(2, t.table_id);
        }
        if let Some(l) = &mut b.list_info {
            l.list_id = m.id(3, l.list_id);
        }
        for f in &mut b.fragments {
            match f {
                FragmentContent::Text { element_id, .. } => *element_id = 0,
                FragmentContent::Image { element_id, .. } => *element_id = 0,
            }
        }
    }
    fn els(e: &mut [FlowElementSnapshot], m: &mut M) {
        for x in e {
            match x {
                FlowElementSnapshot::Block(b) => blk(b, m),
                FlowElementSnapshot::Table(t) => {
                    t.table_id = m.id(2, t.table_id);
                    t.cells.sort_by_key(|c| (c.row, c.column));
                    for c in &mut t.cells {
                        for b in &mut c.blocks {
                            blk(b, m);
                        }
                    }
                }
                FlowElementSnapshot::Frame(f) => {
                    f.frame_id = m.id(1, f.frame_id);
                    els(&mut f.elements, m);
                }
            }
        }
    }
    let mut r = s.clone();
    let mut m = M(vec![]);
    els(&mut r.flow.elements, &mut m);
    for b in &mut r.blocks {
        b.0 = m.id(0, b.0);
    }
    r
}
/// digest contribution of a document's visible text and structure
pub fn observe_doc(d: &TextDocument) {
    let s = d.stats();
    sx::observe(s.character_count as u64 | (s.block_count as u64) << 20 | (s.list_count as u64) << 40 | (s.table_count as u64) << 50);
    sx::observe_str(&plain(d));
}

/// every character's format, block formats and list formats, by position
#[derive(PartialEq, Clone)]
pub struct Fmts(pub Vec<(TextFormat, BlockFormat)>);
pub fn format_state(d: &TextDocument) -> Fmts {
    let mut v = vec![];
    let n = crate::docs::end_of(d);
    for p in 0..=n {
        let c = d.cursor_at(p);
        let a = match c.char_format() { Ok(f) => f, Err(_) => TextFormat::default() };
        let b = match c.block_format() { Ok(f) => f, Err(_) => BlockFormat::default() };
        v.push((a, b));
    }
    Fmts(v)
}
