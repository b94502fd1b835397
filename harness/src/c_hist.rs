//! C02: what the undo history records.
use crate::docs::*;
use crate::ops;
use crate::sx;
use crate::util::*;

fn boundary(c: char) -> bool {
    c.is_whitespace() || ".,;:!?()[]{}\"'-".contains(c)
}
/// a pause of any number of seconds, and perhaps a millisecond
fn pause() -> u64 {
    let s = sx::sym(0, 1_000_000);
    let ms = sx::pick(2) as u64;
    sx::advance_s(s);
    sx::advance_ms(ms);
    s * 1000 + ms
}
struct Step {
    text: Vec<char>,
    /// caret behind the insertion
    after: usize,
    ms: u64,
    typed: bool,
}
/// undo everything and redo everything; `states` are the texts after each step
fn walk(d: &TextDocument, states: &[State], m: &str) {
    let mut s = String::from(m);
    let k = states.len() - 1;
    for i in (0..k).rev() {
        sx::check(d.can_undo(), &(s.clone() + ": too few undo steps"));
        sx::check(d.undo().is_ok(), "undo failed");
        check_same(&states[i], &state(d), &(s.clone() + ": undo"));
        sx::check(d.can_redo(), "can_redo after undo");
    }
    sx::check(!d.can_undo(), &(s.clone() + ": too many undo steps"));
    sx::check(d.undo().is_ok(), "undo with nothing to undo");
    check_same(&states[0], &state(d), "undo with nothing to undo");
    for i in 1..=k {
        sx::check(d.can_redo(), "too few redo steps");
        sx::check(d.redo().is_ok(), "redo failed");
        check_same(&canon(&states[i]), &canon(&state(d)), &(s.clone() + ": redo"));
        sx::check(d.can_undo(), "can_undo after redo");
    }
    s.push_str(": too many redo steps");
    sx::check(!d.can_redo(), &s);
}
/// typing: which insertions share an undo step
fn typing(n: usize, texts: &[&str], places: &[usize]) {
    let d = sym_doc("ab cd\nef");
    let c = d.cursor_at([2, 5][sx::pick(2)]);
    let mut states = vec![state(&d)];
    let mut now = 0u64;
    let mut last: Option<Step> = None;
    for i in 0..n {
        let gap = if i == 0 { 0 } else { pause() };
        now += gap;
        // where: continue at the caret, elsewhere, or replace a selection
        let mut replaced = false;
        match places[sx::pick(places.len())] {
            0 => {}
            1 => c.set_position(1, MOVE),
            _ => {
                let p = c.position();
                c.set_position(p.saturating_sub(1), KEEP);
                replaced = true;
            }
        }
        let at = c.position();
        let t = texts[sx::pick(texts.len())];
        let mut tx = String::new();
        for ch in t.chars() {
            tx.push(if ch == 'x' { letter() } else { ch });
        }
        sx::check(c.insert_text(&tx).is_ok(), "insert_text failed");
        let text: Vec<char> = tx.chars().collect();
        let merged = match &last {
            Some(l) => {
                l.typed && now - l.ms <= 2000 && !replaced && at == l.after && l.text.len() + text.len() <= 200 && !(boundary(l.text[l.text.len() - 1]) && !boundary(text[0]))
            }
            None => false,
        };
        if merged {
            states.pop();
            sx::reach(2);
            let mut l = last.take().unwrap();
            l.text.extend(text);
            l.after = c.position();
            l.ms = now;
            last = Some(l);
        } else {
            sx::reach(3);
            last = Some(Step { text, after: c.position(), ms: now, typed: true });
        }
        states.push(state(&d));
        sx::check(!d.can_redo(), "can_redo after an edit");
    }
    walk(&d, &states, "typing");
    sx::reach(1);
    observe_doc(&d);
}
pub fn typing2() {
    typing(2, &["x", " ", "x\nx", "-", "\u{e9}"], &[0, 1, 2])
}
pub fn typing3() {
    typing(3, &["x", " "], &[0, 2])
}
pub fn typing3_full() {
    typing(3, &["x", " ", "."], &[0, 1, 2])
}
/// a step holds at most 200 characters
pub fn typing_limit() {
    let d = plain_doc("ab");
    let c = d.cursor_at(1);
    let mut len = sx::range(197, 201);
    let mut states = vec![state(&d)];
    let mut t = String::new();
    let wide = sx::flag();
    for _ in 0..len {
        t.push(if wide { 'é' } else { 'm' });
    }
    sx::check(c.insert_text(&t).is_ok(), "insert_text failed");
    states.push(state(&d));
    for _ in 0..3 {
        let k = sx::range(1, 2);
        let more = if wide { ["あ", "éç"][k - 1] } else { ["n", "no"][k - 1] };
        sx::check(c.insert_text(more).is_ok(), "insert_text failed");
        if len + k <= 200 {
            states.pop();
            len += k;
            sx::reach(2);
        } else {
            len = k;
            sx::reach(3);
        }
        states.push(state(&d));
    }
    walk(&d, &states, "long typing");
    sx::reach(1);
    observe_doc(&d);
}
/// delete keys: an undo step covers one delete, or neighbouring deletes within two seconds
pub fn deleting() {
    let d = sym_doc("abc d\nef");
    let c = d.cursor_at([2, 4, 6][sx::pick(3)]);
    let mut texts = vec![state(&d)];
    let mut near = vec![false];
    for i in 0..3 {
        let gap = if i == 0 { 0 } else { pause() };
        let r = if sx::flag() { c.delete_char() } else { c.delete_previous_char() };
        sx::check(r.is_ok(), "delete failed");
        let s = state(&d);
        if s == texts[texts.len() - 1] {
            return; // nothing there to delete
        }
        texts.push(s);
        near.push(i > 0 && gap <= 2000);
    }
    // undo all: every step lands on a recorded state, and steps may only join
    // deletes that are near in time
    let mut i = 3;
    let mut steps = vec![3];
    while d.can_undo() {
        sx::check(d.undo().is_ok(), "undo failed");
        let s = state(&d);
        sx::check(i > 0, "an undo step too many");
        let mut j = i - 1;
        while texts[j] != s {
            sx::check(j > 0 && near[j + 1], "deletes that are not near in time share an undo step");
            j -= 1;
        }
        i = j;
        steps.push(i);
    }
    sx::check(i == 0, "undoing everything does not lead to the start");
    steps.pop();
    while d.can_redo() {
        sx::check(d.redo().is_ok(), "redo failed");
        let w = match steps.pop() {
            Some(w) => w,
            None => sx::fail("a redo step too many"),
        };
        check_same(&canon(&texts[w]), &canon(&state(&d)), "redo of deletes");
    }
    sx::check(steps.is_empty(), "redoing everything does not lead to the end");
    sx::reach(1);
    observe_doc(&d);
}
/// an insertion and a deletion never share a step, nor do different operations
pub fn mixed() {
    let menu = [0, 1, 2, 3, 5, 7, 12, 13, 14];
    let d = sym_doc("abc\nde");
    let c = sel(&d, 2, [2, 4][sx::pick(2)]);
    let mut states = vec![state(&d)];
    let (o1, o2) = (menu[sx::pick(menu.len())], menu[sx::pick(menu.len())]);
    for (i, o) in [o1, o2].iter().enumerate() {
        sx::check(ops::apply(*o, &d, &c), "operation failed");
        let s = state(&d);
        // operations that change nothing, and same-kind edits, are other harnesses' business
        if s == states[i] || (i == 1 && o1 == o2) || (i == 1 && [2, 3].contains(&o1) && [2, 3].contains(&o2)) {
            return;
        }
        states.push(s);
    }
    walk(&d, &states, "two operations");
    sx::reach(1);
    observe_doc(&d);
}
/// edit blocks: one undo step for everything inside, nested or not; none when empty
pub fn edit_block() {
    let d = build([0, 3, 5][sx::pick(3)]);
    let n = end_of(&d);
    let c = d.cursor_at(1);
    let mut states = vec![state(&d)];
    // an ordinary edit before, or none
    if sx::flag() {
        c.insert_text(&letters(1)).unwrap();
        states.push(state(&d));
    }
    let nested = sx::flag();
    let count = sx::pick(3);
    c.begin_edit_block();
    for i in 0..count {
        if nested {
            c.begin_edit_block();
        }
        let op = [0, 1, 3, 4, 9, 12, 14][sx::pick(7)];
        let e = end_of(&d);
        let p = (n / 2 + i).min(e - 1);
        let was = state(&d);
        sx::check(ops::apply(op, &d, &sel(&d, (p + 1 + 2 * i).min(e), p)), "operation failed");
        if was == state(&d) {
            return; // a step that changes nothing
        }
        if nested {
            c.end_edit_block();
        }
    }
    c.end_edit_block();
    let s = state(&d);
    if s != states[states.len() - 1] {
        states.push(s);
    }
    // an ordinary edit after, never part of the block's step
    if sx::flag() {
        ops::barrier();
        c.insert_text(&letters(1)).unwrap();
        states.push(state(&d));
    }
    walk(&d, &states, "edit block");
    sx::reach(1 + count as u64);
    observe_doc(&d);
}
/// a new edit after undo drops the redo history and nothing else
pub fn branch() {
    let d = build([0, 5][sx::pick(2)]);
    let c = d.cursor_at(1);
    let mut states = vec![state(&d)];
    for _ in 0..3 {
        c.insert_text(&letters(1)).unwrap();
        ops::barrier();
        states.push(state(&d));
    }
    let back = sx::range(1, 3);
    for _ in 0..back {
        d.undo().unwrap();
        states.pop();
    }
    check_same(&states[states.len() - 1], &state(&d), "undo");
    let menu: Vec<usize> = (0..ops::N_OPS).filter(|x| *x != 6).collect();
    let op = menu[sx::pick(menu.len())];
    let q = d.cursor_at([1, 4][sx::pick(2)]);
    // plain, in an edit block, in a nested edit block
    let depth = if op < 6 { sx::pick(3) } else { 0 };
    let before = state(&d);
    for _ in 0..depth {
        q.begin_edit_block();
    }
    let ok = ops::apply(op, &d, &q);
    for _ in 0..depth {
        q.end_edit_block();
    }
    let s = state(&d);
    if !ok {
        check_same(&before, &s, "a refused operation");
        sx::check(d.can_redo(), "a refused operation dropped the redo history");
        sx::reach(2);
        return;
    }
    if s == before {
        return;
    }
    sx::check(!d.can_redo(), "can_redo after a new edit");
    states.push(s);
    walk(&d, &states, "branch");
    sx::reach(1);
    observe_doc(&d);
}
/// typing that merges into the step an undo uncovered: the redo branch goes
/// although no step is added
pub fn branch_merge() {
    let d = build([0, 5][sx::pick(2)]);
    let c = d.cursor_at(1);
    let mut states = vec![state(&d)];
    c.insert_text(&letters(1)).unwrap();
    states.push(state(&d));
    let other = d.cursor_at(4);
    match sx::pick(3) {
        0 => other.insert_block().unwrap(),
        1 => other.insert_text(&letters(1)).unwrap(),
        _ => {
            other.begin_edit_block();
            other.insert_text(&letters(1)).unwrap();
            other.insert_block().unwrap();
            other.end_edit_block();
        }
    }
    let undone = sx::flag();
    if undone {
        d.undo().unwrap();
        check_same(&states[1], &state(&d), "undo");
        sx::check(d.can_redo(), "can_redo after undo");
    } else {
        states.push(state(&d));
    }
    let q = d.cursor_at(2);
    q.insert_text(&letters(1)).unwrap();
    sx::check(!d.can_redo(), "can_redo after more typing");
    if undone {
        states.pop();
    }
    states.push(state(&d));
    walk(&d, &states, "typing after undo");
    sx::reach(1 + undone as u64);
    observe_doc(&d);
}
/// clearing
pub fn clear() {
    let d = build(0);
    let c = d.cursor_at(1);
    c.insert_text(&letters(1)).unwrap();
    ops::barrier();
    c.insert_text(&letters(1)).unwrap();
    if sx::flag() {
        d.undo().unwrap();
    }
    let s = state(&d);
    match sx::pick(3) {
        0 => {
            d.clear_undo_redo();
            check_same(&s, &state(&d), "clear_undo_redo");
        }
        1 => {
            sx::check(d.set_plain_text(&letters(2)).is_ok(), "set_plain_text failed");
        }
        _ => {
            sx::check(d.clear().is_ok(), "clear failed");
        }
    }
    sx::check(!d.can_undo() && !d.can_redo(), "history after clearing");
    let s = state(&d);
    d.undo().unwrap();
    d.redo().unwrap();
    check_same(&s, &state(&d), "undo and redo without history");
    sx::reach(1);
    observe_doc(&d);
}
