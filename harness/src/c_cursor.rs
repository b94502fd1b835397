//! C05 (other cursors keep their place) and C06 (movement and selection).
use crate::docs::*;
use crate::sx;
use crate::util::*;

// ---- C05

/// an edit through `c`; returns the replaced range and the inserted length
fn edit(op: usize, c: &TextCursor, end: usize) -> (usize, usize, usize) {
    let (s, e) = (c.selection_start(), c.selection_end());
    let r = match op {
        0 => (s, e, 2, c.insert_text(&letters(2))),
        1 => (s, e, 1, c.insert_block()),
        2 => (s, if s == e { (s + 1).min(end) } else { e }, 0, c.delete_char()),
        3 => (if s == e { s.saturating_sub(1) } else { s }, e, 0, c.delete_previous_char()),
        4 => (s, e, 0, c.remove_selected_text().map(|_| ())),
        5 => (s, e, 1, c.insert_formatted_text("\u{1f642}", &fmt_bold())),
        6 => {
            let mut t = letters(1);
            t.push('\n');
            t.push(letter());
            (s, e, 3, c.insert_fragment(&DocumentFragment::from_plain_text(&t)))
        }
        7 => (s, e, 2, c.insert_html("<b>h</b>i")),
        8 => (s, e, 2, c.insert_markdown("*m*n")),
        9 => (s, e, 4, c.insert_text("ab\nc")),
        _ => unreachable!(),
    };
    sx::check(r.3.is_ok(), "the edit failed");
    (r.0, r.1, r.2)
}
const N_EDITS: usize = 10;
fn follows(old: usize, new: usize, s: usize, e: usize, l: usize) {
    if old <= s {
        sx::check(new == old, "a cursor before the edit moved");
    } else if old >= e {
        sx::check(new == old - (e - s) + l, "a cursor behind the edit did not move with its text");
    } else {
        sx::check(new >= s && new <= s + l, "a cursor inside the replaced text is not at the edit");
    }
}
fn others(d: &TextDocument, full: bool) {
    let n = end_of(d);
    let op = sx::pick(N_EDITS);
    let p = sx::range(0, n);
    let q = if full { sx::range(0, n) } else { [p, (p + 2).min(n), (p + 4).min(n)][sx::pick(3)] };
    let c = sel(d, q, p);
    let (p2, a2) = (sx::range(0, n), [0, n / 2, n][sx::pick(3)]);
    let o = sel(d, a2, p2);
    let twin = o.clone();
    let last = d.cursor_at(n);
    let dropped = d.cursor_at(n / 2);
    drop(dropped);
    let (p2, a2) = (o.position(), o.anchor());
    sx::check(twin.position() == p2 && twin.anchor() == a2, "a clone starts where its original is");
    let (s, e, l) = edit(op, &c, n);
    sx::reach(1 + op as u64);
    let n2 = end_of(d);
    sx::check(n2 + (e - s) == n + l, "length after the edit");
    follows(p2, o.position(), s, e, l);
    follows(a2, o.anchor(), s, e, l);
    sx::check(twin.position() == o.position() && twin.anchor() == o.anchor(), "a clone is adjusted like its original");
    follows(n, last.position(), s, e, l);
    sx::check(c.position() == s + l && c.anchor() == c.position(), "the editing cursor ends behind the inserted text");
    sx::check(o.position() <= n2 && o.anchor() <= n2, "a cursor points behind the end");
    sx::observe((o.position() * 100 + o.anchor()) as u64);
    observe_doc(d);
}
pub fn others_flat() {
    let d = build([0, 1, 3][sx::pick(3)]);
    others(&d, false)
}
/// inside one table cell or frame
pub fn others_struct() {
    let d = build(5);
    let n = end_of(&d);
    let op = [0, 1, 3, 5, 6][sx::pick(5)];
    let p = sx::range(0, n);
    let c = d.cursor_at(p);
    if op == 3 && (c.at_block_start() || p == 0) {
        return;
    }
    let p2 = sx::range(0, n);
    let o = d.cursor_at(p2);
    let (s, e, l) = edit(op, &c, n);
    sx::reach(1);
    follows(p2, o.position(), s, e, l);
    sx::check(c.position() == s + l, "the editing cursor ends behind the inserted text");
    observe_doc(&d);
}
pub fn others_full() {
    let d = build([0, 1, 3, 4][sx::pick(4)]);
    others(&d, true)
}
/// two cursors edit in turns: the result is the splices at the places the
/// cursors were carried to
pub fn turns() {
    let d = sym_doc("ab\ncd");
    let n = end_of(&d);
    let (p1, p2) = (sx::range(0, n), sx::range(0, n));
    let (c1, c2) = (d.cursor_at(p1), d.cursor_at(p2));
    let (mut x1, mut x2) = (p1, p2);
    let mut t: Vec<char> = plain(&d).chars().collect();
    for turn in 0..4 {
        let (c, x, y) = if turn % 2 == 0 { (&c1, &mut x1, &mut x2) } else { (&c2, &mut x2, &mut x1) };
        match sx::pick(3) {
            0 => {
                let l = letter();
                sx::check(c.insert_text(&String::from(l)).is_ok(), "insert_text failed");
                t.insert(*x, l);
                if *y > *x {
                    *y += 1;
                }
                *x += 1;
            }
            1 => {
                sx::check(c.insert_block().is_ok(), "insert_block failed");
                t.insert(*x, '\n');
                if *y > *x {
                    *y += 1;
                }
                *x += 1;
            }
            _ => {
                sx::check(c.delete_previous_char().is_ok(), "delete failed");
                if *x > 0 {
                    t.remove(*x - 1);
                    if *y >= *x {
                        *y -= 1;
                    }
                    *x -= 1;
                }
            }
        }
    }
    sx::reach(1);
    sx::check(plain(&d) == t.iter().collect::<String>(), "two cursors editing in turns");
    sx::check(c1.position() == x1 && c2.position() == x2, "positions after turns");
    observe_doc(&d);
}

// ---- C06

/// the blocks as lists of user-perceived characters
struct Model {
    blocks: Vec<Vec<String>>,
    starts: Vec<usize>,
    end: usize,
    chars: Vec<char>,
}
/// `pattern`: letters are symbolic; '1' stands for e + combining accent,
/// '2' for an emoji with skin tone, '3' for a flag
fn model(pattern: &str) -> (TextDocument, Model) {
    let mut blocks = vec![vec![]];
    for ch in pattern.chars() {
        let g = match ch {
            '\n' => {
                blocks.push(vec![]);
                continue;
            }
            '1' => String::from("e\u{301}"),
            '2' => String::from("\u{1f44b}\u{1f3fb}"),
            '3' => String::from("\u{1f1eb}\u{1f1f7}"),
            'a'..='y' => String::from(letter()),
            c => String::from(c),
        };
        blocks.last_mut().unwrap().push(g);
    }
    let t = blocks.iter().map(|b| b.concat()).collect::<Vec<_>>().join("\n");
    let d = plain_doc(&t);
    let mut starts = vec![];
    let mut p = 0;
    for b in &blocks {
        starts.push(p);
        p += b.iter().map(|g| nchars(g)).sum::<usize>() + 1;
    }
    (d, Model { blocks, starts, end: p - 1, chars: t.chars().collect() })
}
impl Model {
    fn blen(&self, i: usize) -> usize {
        self.blocks[i].iter().map(|g| nchars(g)).sum()
    }
    /// block of a caret at p
    fn block(&self, p: usize) -> usize {
        let mut r = 0;
        for (i, s) in self.starts.iter().enumerate() {
            if *s <= p {
                r = i;
            }
        }
        r
    }
    /// all places a caret may be
    fn stops(&self) -> Vec<usize> {
        let mut v = vec![];
        for (i, b) in self.blocks.iter().enumerate() {
            let mut p = self.starts[i];
            v.push(p);
            for g in b {
                p += nchars(g);
                v.push(p);
            }
        }
        v
    }
    fn snap(&self, p: usize) -> usize {
        for s in self.stops() {
            if s >= p {
                return s;
            }
        }
        self.end
    }
    fn is_word(&self, p: usize) -> bool {
        p < self.chars.len() && !matches!(self.chars[p], ' ' | '\n' | '.' | ',' | '\u{1f44b}' | '\u{1f3fb}' | '\u{1f1eb}' | '\u{1f1f7}')
    }
    /// end of the word that covers the character at p
    fn word_end(&self, mut p: usize) -> usize {
        while self.is_word(p) {
            p += 1;
        }
        p
    }
    fn word_start(&self, mut p: usize) -> usize {
        while p > 0 && self.is_word(p - 1) {
            p -= 1;
        }
        p
    }
}
const DOCS6: [&str; 4] = ["ab c\n\n\nd1e\nf", "2a3\n1", "", "a. b\n\n"];
const MOVES: [MoveOperation; 13] = [
    MoveOperation::NoMove,
    MoveOperation::Start,
    MoveOperation::End,
    MoveOperation::StartOfBlock,
    MoveOperation::EndOfBlock,
    MoveOperation::PreviousBlock,
    MoveOperation::NextBlock,
    MoveOperation::PreviousCharacter,
    MoveOperation::NextCharacter,
    MoveOperation::Left,
    MoveOperation::Right,
    MoveOperation::Up,
    MoveOperation::Down,
];
fn start_at(d: &TextDocument, m: &Model, extra: usize) -> (TextCursor, usize, usize) {
    let c = d.cursor();
    let (a, p) = (sx::range(0, m.end + extra), sx::range(0, m.end + extra));
    c.set_position(a, MOVE);
    sx::check(c.position() == m.snap(a.min(m.end)), "set_position: clamped, and moved to the end of a cluster");
    sx::check(c.anchor() == c.position(), "MoveAnchor moves the anchor");
    let a = c.position();
    c.set_position(p, KEEP);
    sx::check(c.position() == m.snap(p.min(m.end)), "set_position with KeepAnchor");
    sx::check(c.anchor() == a, "KeepAnchor leaves the anchor");
    (c, a, m.snap(p.min(m.end)))
}
pub fn moves() {
    let (d, m) = model(DOCS6[sx::pick(4)]);
    let c = d.cursor();
    let p = sx::range(0, m.end + 1);
    c.set_position(p, MOVE);
    let p = m.snap(p.min(m.end));
    sx::check(c.position() == p, "set_position: clamped, and moved to the end of a cluster");
    let n = sx::range(0, 3);
    let op = MOVES[sx::pick(MOVES.len())];
    let keep = sx::flag();
    let moved = c.move_position(op, if keep { KEEP } else { MOVE }, n);
    let stops = m.stops();
    let k = stops.iter().position(|x| *x == p).unwrap();
    let b = m.block(p);
    let want = match op {
        MoveOperation::NoMove => p,
        MoveOperation::Start => 0,
        MoveOperation::End => m.end,
        MoveOperation::StartOfBlock => m.starts[b],
        MoveOperation::EndOfBlock => m.starts[b] + m.blen(b),
        MoveOperation::PreviousBlock | MoveOperation::Up => if b > 0 { m.starts[b - 1] } else { 0 },
        MoveOperation::NextBlock | MoveOperation::Down => if b + 1 < m.starts.len() { m.starts[b + 1] } else { m.end },
        MoveOperation::PreviousCharacter | MoveOperation::Left => stops[k.saturating_sub(n)],
        _ => stops[(k + n).min(stops.len() - 1)],
    };
    sx::reach(1 + op as u64);
    sx::check(c.position() == want, "move_position target");
    sx::check(c.anchor() == if keep { p } else { want }, "anchor after a move");
    sx::check(moved == (want != p), "move_position says whether the cursor moved");
    sx::observe(want as u64);
}
/// what a cursor says about itself
pub fn queries() {
    let (d, m) = model(DOCS6[sx::pick(4)]);
    let (c, a, p) = start_at(&d, &m, 2);
    let (s, e) = (a.min(p), a.max(p));
    sx::check(c.selection_start() == s && c.selection_end() == e && c.has_selection() == (s != e), "selection bounds");
    match c.selected_text() {
        Ok(t) => sx::check(t == m.chars[s..e].iter().collect::<String>(), "selected_text"),
        Err(_) => sx::fail("selected_text failed"),
    }
    let b = m.block(p);
    sx::check(c.block_number() == b, "block_number");
    sx::check(c.position_in_block() == p - m.starts[b], "position_in_block");
    sx::check(c.at_block_start() == (p == m.starts[b]), "at_block_start");
    sx::check(c.at_block_end() == (p == m.starts[b] + m.blen(b)), "at_block_end");
    sx::check(c.at_start() == (p == 0), "at_start");
    sx::check(c.at_end() == (p == m.end), "at_end");
    match sx::pick(5) {
        0 => {
            c.clear_selection();
            sx::check(c.position() == p && c.anchor() == p, "clear_selection");
        }
        1 => {
            c.select(SelectionType::Document);
            sx::check(c.anchor() == 0 && c.position() == m.end, "select document");
        }
        2 => {
            c.select(SelectionType::BlockUnderCursor);
            sx::check(c.anchor() == m.starts[b] && c.position() == m.starts[b] + m.blen(b), "select block");
        }
        3 => {
            c.select(SelectionType::LineUnderCursor);
            sx::check(c.anchor() == m.starts[b] && c.position() == m.starts[b] + m.blen(b), "select line");
        }
        _ => {
            c.select(SelectionType::WordUnderCursor);
            let (ws, we) = (c.anchor(), c.position());
            if m.is_word(p) {
                sx::check(ws == m.word_start(p) && we == m.word_end(p), "select word: the word at the cursor");
            } else {
                sx::check((ws == p && we == p) || (we == p && ws == m.word_start(p)), "select word: outside of a word");
            }
        }
    }
    sx::reach(1);
    sx::observe((c.anchor() * 64 + c.position()) as u64);
}
/// word moves
pub fn words() {
    let (d, m) = model(["ab cd\n\n e", "a, b\nc d", "ab\ncd", "  a"][sx::pick(4)]);
    let c = d.cursor();
    let p = sx::range(0, m.end);
    c.set_position(p, MOVE);
    if sx::flag() {
        let op = [MoveOperation::NextWord, MoveOperation::WordRight][sx::pick(2)];
        c.move_position(op, MOVE, 1);
        let q = c.position();
        let mut w = p;
        while w < m.end && !m.is_word(w) {
            w += 1;
        }
        sx::check(q == m.word_end(w), "next word: the end of the word at or behind the cursor");
        sx::reach(1);
    } else {
        let op = [MoveOperation::PreviousWord, MoveOperation::WordLeft][sx::pick(2)];
        c.move_position(op, MOVE, 1);
        let q = c.position();
        // inside a word (not at its start): its start; else the start of the word before
        let mut w = p;
        while w > 0 && !m.is_word(w - 1) {
            w -= 1;
        }
        sx::check(q == m.word_start(w), "previous word: the start of the word at or before the cursor");
        sx::reach(2);
    }
    sx::observe(c.position() as u64);
}
/// words and the gaps between them may be long
pub fn words_far() {
    let gap = sx::range(1, 75);
    let word = [1, 2, 70][sx::pick(3)];
    let ch = [' ', '\u{a0}', ';', '\n'][sx::pick(4)];
    let mut t = String::from("ab");
    for _ in 0..gap {
        t.push(ch);
    }
    let l = letter_of(sx::pick(2));
    for _ in 0..word {
        t.push(l);
    }
    t.push(' ');
    let d = plain_doc(&t);
    let end = 2 + gap + word;
    let p = [0, 2, 2 + gap / 2, 2 + gap, 2 + gap + word / 2][sx::pick(5)];
    let c = d.cursor_at(p);
    if sx::flag() {
        c.move_position(MoveOperation::NextWord, MOVE, 1);
        let want = if p < 2 { 2 } else { end };
        sx::check(c.position() == want, "next word: the end of the word at or behind the cursor, however far");
    } else {
        c.move_position(MoveOperation::PreviousWord, MOVE, 1);
        let want = if p > 2 + gap { 2 + gap } else { 0 };
        sx::check(c.position() == want, "previous word: the start of the word at or before the cursor, however far");
    }
    sx::reach(1);
    sx::observe(c.position() as u64);
}
fn letter_of(k: usize) -> char {
    if k == 0 { 'c' } else { '\u{e9}' }
}
/// delete keys remove one user-perceived character
pub fn delete_cluster() {
    let (d, m) = model(DOCS6[sx::pick(4)]);
    let stops = m.stops();
    let k = sx::pick(stops.len());
    let c = d.cursor();
    c.set_position(stops[k], MOVE);
    let (s, e) = if sx::flag() {
        sx::check(c.delete_char().is_ok(), "delete_char failed");
        (stops[k], stops[(k + 1).min(stops.len() - 1)])
    } else {
        sx::check(c.delete_previous_char().is_ok(), "delete_previous_char failed");
        (stops[k.saturating_sub(1)], stops[k])
    };
    let mut t: String = m.chars[..s].iter().collect();
    t.extend(m.chars[e..].iter());
    sx::check(plain(&d) == t, "a delete key removes one user-perceived character");
    sx::check(c.position() == s, "caret after a delete key");
    sx::reach(1);
    observe_doc(&d);
}
