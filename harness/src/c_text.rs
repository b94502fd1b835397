//! C03: an edit replaces exactly the selected text.
use crate::docs::*;
use crate::sx;
use crate::util::*;

/// splice on characters
pub fn splice(t: &str, s: usize, e: usize, ins: &str) -> String {
    let mut r = sub(t, 0, s);
    r.push_str(ins);
    r.push_str(&sub(t, e, nchars(t)));
    r
}
/// the text in position space
pub fn whole(d: &TextDocument) -> String {
    let n = end_of(d);
    match d.text_at(0, n) {
        Ok(s) => s,
        Err(_) => sx::fail("text_at failed"),
    }
}

/// documents whose cached positions lag behind because of earlier edits
pub fn stale_doc(k: usize) -> TextDocument {
    let d = plain_doc("ab\ncd\n\nef");
    match k {
        0 => d.cursor_at(1).insert_text("qr\u{e9}\u{1f642}u").unwrap(),
        1 => d.cursor_at(4).delete_previous_char().unwrap(),
        2 => {
            d.cursor_at(3).insert_text("\u{4e2d}yz").unwrap();
            d.cursor_at(0).insert_block().unwrap();
        }
        3 => {
            let _ = sel(&d, 1, 4).remove_selected_text().unwrap();
        }
        _ => {
            d.cursor_at(2).insert_text("qrs").unwrap();
            d.undo().unwrap();
        }
    }
    d.clear_undo_redo();
    d
}
fn any_doc(sets: usize) -> (TextDocument, bool) {
    match sets {
        0 => (build([0, 1, 3, 4][sx::pick(4)]), false),
        1 => (stale_doc(sx::pick(5)), false),
        _ => (build(5 + sx::pick(2)), true),
    }
}

/// one text edit compared with the splice it claims to be
fn edit(sets: usize, full: bool) {
    let (d, structured) = any_doc(sets);
    let base = whole(&d);
    let n = end_of(&d);
    let p = sx::range(0, n);
    let a = if full { sx::range(0, n) } else { [p, (p + 1).min(n), (p + 3).min(n), 0, n][sx::pick(5)] };
    let c = sel(&d, a, p);
    let (p, a) = (c.position(), c.anchor());
    let (s, e) = (p.min(a), p.max(a));
    let x = letters(2);
    let mut long = String::from("\u{e9}");
    long.push_str(&x);
    long.push('\u{1f642}');
    let op = sx::pick(8);
    if structured {
        // a selection inside one block; crossing cells is another property
        let b = d.blocks();
        let mut inside = false;
        for k in &b {
            inside |= s >= k.position() && e <= k.position() + k.length();
        }
        if !inside {
            return;
        }
        // deleting a separator would merge cells
        let at_start = b.iter().any(|k| k.position() == s);
        let at_end = b.iter().any(|k| k.position() + k.length() == s);
        if s == e && ((op == 4 && at_start) || (op == 3 && at_end)) {
            return;
        }
    }
    sx::check(
        match c.selected_text() {
            Ok(t) => t == sub(&base, s, e),
            Err(_) => false,
        },
        "selected_text",
    );
    sx::reach(1 + op as u64);
    let (lo, hi, ins, pos): (usize, usize, String, usize) = match op {
        0 => {
            c.insert_text(&x).unwrap();
            (s, e, x, s + 2)
        }
        1 => {
            c.insert_text(&long).unwrap();
            (s, e, long, s + 4)
        }
        2 => {
            c.insert_formatted_text(&long, &fmt_bold()).unwrap();
            (s, e, long, s + 4)
        }
        3 => {
            c.delete_char().unwrap();
            if s == e { (s, (s + 1).min(n), String::new(), s) } else { (s, e, String::new(), s) }
        }
        4 => {
            c.delete_previous_char().unwrap();
            if s == e { (s.saturating_sub(1), s, String::new(), s.saturating_sub(1)) } else { (s, e, String::new(), s) }
        }
        5 => {
            let t = c.remove_selected_text().unwrap();
            sx::check(t == sub(&base, s, e), "remove_selected_text returns other text");
            (s, e, String::new(), s)
        }
        6 => {
            c.insert_block().unwrap();
            (s, e, String::from("\n"), s + 1)
        }
        _ => {
            let mut f = x.clone();
            f.push_str("\n\u{e9}");
            c.insert_fragment(&DocumentFragment::from_plain_text(&f)).unwrap();
            (s, e, f, s + 4)
        }
    };
    let want = splice(&base, lo, hi, &ins);
    sx::check(whole(&d) == want, "text after the edit");
    sx::check(c.position() == pos && c.anchor() == pos, "cursor after the edit");
    if !structured {
        sx::check(plain(&d) == want, "to_plain_text after the edit");
    }
    observe_doc(&d);
    d.undo().unwrap_or(());
    if d.can_redo() {
        sx::check(whole(&d) == base, "undo restores the text");
    }
}
pub fn edit_flat() {
    edit(0, false)
}
pub fn edit_stale() {
    edit(1, false)
}
pub fn edit_struct() {
    edit(2, false)
}
pub fn edit_full() {
    edit(sx::pick(3), true)
}

/// a selection over blocks in different places (cells, frames, body): the
/// selected letters go, all others stay, in order
fn across(full: bool) {
    let k = sx::pick(4);
    let d = match k {
        0 => build(5),
        1 => build(6),
        2 => {
            let d = plain_doc("ab\ncd\nef");
            d.cursor_at(sx::pick(4) + 1).insert_table(1, 1).unwrap();
            let t = d.blocks();
            let p = t.iter().find(|b| b.length() == 0 || b.snapshot().table_cell.is_some()).map(|b| b.position()).unwrap_or(0);
            d.cursor_at(p).insert_text("k").unwrap();
            d
        }
        _ => {
            let d = plain_doc("ab\ncd");
            d.cursor_at(2).insert_table(1, 2).unwrap();
            d.cursor_at(end_of(&d)).insert_table(1, 1).unwrap();
            d
        }
    };
    let n = end_of(&d);
    let p = sx::range(0, n);
    let a = if full { sx::range(0, n) } else { [(p + 1).min(n), (p + 2).min(n), (p + 4).min(n), (p + 7).min(n), 0, n][sx::pick(6)] };
    let c = sel(&d, a, p);
    let (p, a) = (c.position(), c.anchor());
    let (s, e) = (p.min(a), p.max(a));
    let base = whole(&d);
    let old: Vec<String> = d.blocks().iter().map(|b| b.text()).collect();
    let spans: Vec<(usize, usize, bool)> = d.blocks().iter().map(|b| (b.position(), b.position() + b.length(), b.snapshot().table_cell.is_some())).collect();
    let mut keep = vec![];
    for b in d.blocks() {
        // blocks the selection does not reach stay as they are
        if b.position() + b.length() < s || b.position() > e {
            keep.push(b.text());
        }
    }
    let ins = ["", "", "XY", "X"][sx::pick(4)];
    let ok = match ins.len() {
        0 => if sx::flag() { c.remove_selected_text().is_ok() } else { c.delete_char().is_ok() },
        1 => c.insert_formatted_text(ins, &fmt_bold()).is_ok(),
        _ => c.insert_text(ins).is_ok(),
    };
    sx::reach(k as u64);
    if s == e || !ok {
        return;
    }
    let body = |t: &str| -> String { t.chars().filter(|c| *c != '\n').collect() };
    let now = body(&whole(&d));
    // cells the selection spans are emptied, wherever it starts in them
    let (mut lo, mut hi) = (s, e);
    for (a, z, cell) in &spans {
        if *cell && spans.iter().filter(|x| x.0 <= e && x.1 >= s).count() > 1 {
            if *a <= s && *z >= s {
                lo = *a;
            }
            if *a <= e && *z >= e {
                hi = *z;
            }
        }
    }
    let want = body(&splice(&base, lo, hi, ins));
    sx::check(now == want, "letters after an edit across blocks");
    sx::check(c.position() == c.anchor(), "selection after an edit across blocks");
    if !ins.is_empty() {
        let at = c.position();
        let u = whole(&d);
        sx::check(at >= ins.len() && sub(&u, at - ins.len(), at) == ins, "the caret after an edit across blocks");
    }
    // the caret is where the removed letters were
    let front = body(&sub(&base, 0, lo)).chars().count() + ins.len();
    sx::check(body(&sub(&whole(&d), 0, c.position())).chars().count() == front, "the caret is elsewhere after an edit across blocks");
    let new: Vec<String> = d.blocks().iter().map(|b| b.text()).collect();
    sx::check(new.len() <= old.len(), "an edit across blocks adds blocks");
    let mut it = new.iter();
    for k in keep {
        sx::check(it.any(|x| *x == k), "an edit across blocks changes other blocks");
    }
    coherent(&d);
    observe_doc(&d);
}
pub fn edit_across() {
    across(false)
}
pub fn edit_across_full() {
    across(true)
}

/// two edits in a row by two cursors on a growing document
pub fn edit_two() {
    let d = plain_doc("ab\nc\u{e9}");
    let mut want = whole(&d);
    for i in 0..2 {
        let n = end_of(&d);
        let p = sx::range(0, n);
        let a = if sx::flag() { (p + 2).min(n) } else { p };
        let (s, e) = (p.min(a), p.max(a));
        let c = sel(&d, a, p);
        let x = letters(1);
        let (lo, hi, ins) = match sx::pick(4) {
            0 => {
                c.insert_text(&x).unwrap();
                (s, e, x)
            }
            1 => {
                c.insert_block().unwrap();
                (s, e, String::from("\n"))
            }
            2 => {
                c.delete_previous_char().unwrap();
                if s == e { (s.saturating_sub(1), s, String::new()) } else { (s, e, String::new()) }
            }
            _ => {
                let mut f = x.clone();
                f.push('\n');
                f.push_str(&x);
                c.insert_fragment(&DocumentFragment::from_plain_text(&f)).unwrap();
                (s, e, f)
            }
        };
        want = splice(&want, lo, hi, &ins);
        sx::check(whole(&d) == want, "text after the edit");
        sx::check(plain(&d) == want, "to_plain_text after the edit");
        sx::reach(1 + i);
    }
    observe_doc(&d);
}

/// blocks longer than the 255 / 64 characters that some scans assume
pub fn edit_long() {
    let mut t = String::new();
    for i in 0..300usize {
        t.push(if i % 7 == 6 { ' ' } else if i % 11 == 3 { '\u{e9}' } else { 'a' });
    }
    t.push_str("\nzz\u{4e2d}");
    let d = plain_doc(&t);
    let p = sx::pick(5) * 64 + sx::range(0, 2) + 40;
    let l = [0, 1, 70, 260][sx::pick(4)];
    let e = (p + l).min(end_of(&d));
    let c = sel(&d, p, e);
    let x = letters(2);
    match sx::pick(3) {
        0 => {
            c.insert_text(&x).unwrap();
            sx::check(whole(&d) == splice(&t, p, e, &x), "insert in a long block");
        }
        1 => {
            c.insert_block().unwrap();
            sx::check(whole(&d) == splice(&t, p, e, "\n"), "split of a long block");
        }
        _ => {
            c.remove_selected_text().unwrap();
            sx::check(whole(&d) == splice(&t, p, e, ""), "delete in a long block");
        }
    }
    sx::reach(1);
    coherent(&d);
    observe_doc(&d);
}

/// set_plain_text keeps the lines, whatever the line ends
pub fn set_plain() {
    let n = sx::range(0, 5);
    let mut s = String::new();
    let mut want = String::new();
    let mut cr = false;
    for _ in 0..n {
        let k = sx::pick(6);
        let c = ['\n', '\r', '\u{e9}', '\u{1f642}', ' ', 'x'][k];
        let c = if k == 5 { letter() } else { c };
        s.push(c);
        match c {
            '\n' if cr => {}
            '\n' | '\r' => want.push('\n'),
            c => want.push(c),
        }
        cr = c == '\r';
    }
    let d = TextDocument::new();
    d.set_plain_text(&s).unwrap();
    if cfg!(feature = "dbg") { sx::note(&format!("{:?} {:?} {:?}", s, want, plain(&d))); }
    sx::check(plain(&d) == want, "set_plain_text / to_plain_text");
    sx::check(whole(&d) == want, "set_plain_text / text_at");
    sx::check(d.block_count() == want.split('\n').count(), "one block per line");
    coherent(&d);
    sx::reach(1);
    observe_doc(&d);
}

/// text with line ends through the insertion calls
pub fn ins_newline() {
    let d = plain_doc("ab\ncd");
    let base = whole(&d);
    let p = sx::range(0, end_of(&d));
    let c = d.cursor_at(p);
    let t = ["x\ny", "x\n", "\n", "\ny", "x\r\ny", "x\ry", "\t", "x\u{2028}y"][sx::pick(8)];
    let r = if sx::flag() { c.insert_text(t) } else { c.insert_formatted_text(t, &fmt_bold()) };
    if r.is_err() { sx::check(whole(&d) == base, "refused but changed"); return; }
    coherent(&d);
    sx::check(whole(&d) == splice(&base, p, p, t), "text");
}
