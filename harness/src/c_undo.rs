//! C01: undo and redo reproduce the states they claim to.
use crate::docs::*;
use crate::ops::{self, N_OPS};
use crate::sx;
use crate::util::*;

fn msg(kind: usize, op: usize, what: &str) -> String {
    let mut m = String::from(TAGS[kind]);
    m.push(' ');
    m.push_str(ops::NAMES[op]);
    m.push(' ');
    m.push_str(what);
    m
}

fn op_once(kinds: &[usize], full: bool) {
    let kind = kinds[sx::pick(kinds.len())];
    let d = build(kind);
    let n = end_of(&d);
    let op = ops::pick_op();
    let p = sx::range(0, n);
    // the anchor is anywhere, or (quick) at the caret or a few places
    let q = if full { sx::range(0, n) } else { [p, (p + 2).min(n), (p + 5).min(n)][sx::pick(3)] };
    let c = sel(&d, q, p);
    let before = state(&d);
    let fmt_before = format_state(&d);
    let undo_before = d.can_undo();
    let ok = ops::apply(op, &d, &c);
    if !ok {
        sx::reach(3);
        check_same(&before, &state(&d), &msg(kind, op, "refused, but"));
        sx::check(d.can_undo() == undo_before, "a refused operation is undoable");
        return;
    }
    let after = state(&d);
    let fmt_after = format_state(&d);
    if !d.can_undo() {
        // nothing was recorded, so nothing may have changed
        sx::reach(2);
        check_same(&before, &after, &msg(kind, op, "without undo step, but"));
        return;
    }
    sx::reach(1);
    sx::check(d.undo().is_ok(), "undo failed");
    check_same(&before, &state(&d), &msg(kind, op, "undo"));
    sx::check(fmt_before == format_state(&d), "undo: formats differ");
    sx::check(d.can_redo(), "undone but cannot redo");
    sx::check(d.redo().is_ok(), "redo failed");
    check_same(&canon(&after), &canon(&state(&d)), &msg(kind, op, "redo"));
    sx::check(fmt_after == format_state(&d), "redo: formats differ");
    sx::check(d.undo().is_ok(), "second undo failed");
    check_same(&before, &state(&d), &msg(kind, op, "second undo"));
    observe_doc(&d);
}
pub fn op_text() {
    op_once(&[0, 1, 3, 4], false)
}
pub fn op_struct() {
    op_once(&[5, 6], false)
}
pub fn op_full() {
    op_once(&[0, 1, 3, 4, 5, 6], true)
}

/// a history of `n` operations: undo everything step by step, redo everything
fn history(kind: usize, n: usize, menu: &[usize]) {
    let d = build(kind);
    let mut states = vec![state(&d)];
    let mut names: Vec<&str> = vec!["start"];
    for _ in 0..n {
        let op = menu[sx::pick(menu.len())];
        let end = end_of(&d);
        let p = [1.min(end), end / 2, end][sx::pick(3)];
        let q = if sx::flag() { (p + 3).min(end) } else { p };
        sx::reach(10 + op as u64);
        let ok = ops::apply(op, &d, &sel(&d, q, p));
        if cfg!(feature = "dbg") {
            dump(&d, ops::NAMES[op]);
        }
        if ok {
            let s = state(&d);
            // (re)creating what was there is no new state
            if canon(&s) != canon(&states[states.len() - 1]) {
                states.push(s);
                names.push(ops::NAMES[op]);
            }
        } else {
            check_same(&states[states.len() - 1], &state(&d), "a refused operation changed the document");
        }
        ops::barrier();
    }
    let k = states.len() - 1;
    let mut redone = vec![];
    for round in 0..2 {
        // walk back: every undo leads to the state before some operation
        let mut i = k;
        while d.can_undo() {
            sx::check(d.undo().is_ok(), "undo failed");
            let s = state(&d);
            if s == states_at(round, &states, &redone)[i] {
                continue; // a step that changed nothing
            }
            sx::check(i > 0, "an undo step too many");
            i -= 1;
            check_same(&states_at(round, &states, &redone)[i], &s, "undo in a history");
        }
        sx::check(i == 0, "undoing everything does not lead to the start");
        if round == 1 {
            break;
        }
        redone.push(state(&d));
        while d.can_redo() {
            if d.redo().is_err() {
                let mut m = String::from("redo of ");
                m.push_str(names[(i + 1).min(k)]);
                m.push_str(" failed after ");
                m.push_str(names[i]);
                sx::fail(&m);
            }
            let s = state(&d);
            if canon(&s) == canon(&states[i]) {
                continue;
            }
            sx::check(i < k, "a redo step too many");
            i += 1;
            check_same(&canon(&states[i]), &canon(&s), "redo in a history");
            redone.push(s);
        }
        sx::check(i == k, "redoing everything does not lead to the end");
    }
    sx::reach(1);
    observe_doc(&d);
}
/// the states of the first and, with fresh entity ids, of the second pass
fn states_at<'a>(round: usize, first: &'a [State], second: &'a [State]) -> &'a [State] {
    if round == 0 { first } else { second }
}
const MENU: [usize; 8] = [0, 1, 3, 4, 9, 12, 14, 18];
pub fn hist_plain() {
    history(0, 2, &MENU)
}
pub fn hist_table() {
    history(5, 2, &[0, 1, 4, 10, 17, 20, 23, 24])
}
pub fn hist_plain3() {
    history(1, 3, &MENU)
}
pub fn hist_all2() {
    history([0, 3, 5, 6][sx::pick(4)], 2, &(0..N_OPS).filter(|x| *x != 6).collect::<Vec<_>>())
}
