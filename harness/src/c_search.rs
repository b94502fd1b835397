//! C09: finding and replacing.
use crate::c_fmt::{chars, inherit, put, same, Chars};
use crate::c_text::{stale_doc, whole};
use crate::docs::*;
use crate::sx;
use crate::util::*;
const DBG: bool = cfg!(feature = "dbg");

/// one of a, b, A, B
fn abc() -> char {
    let c = sx::sym(65, 98);
    sx::assume((c <= 66) | (c >= 97));
    c as u8 as char
}
fn ab() -> char {
    sx::sym(97, 98) as u8 as char
}
/// every `a` of the pattern becomes a symbolic character
fn fill(pattern: &str, f: fn() -> char) -> String {
    let mut t = String::new();
    for c in pattern.chars() {
        t.push(if c == 'a' { f() } else { c });
    }
    t
}
fn v(t: &str) -> Vec<char> {
    t.chars().collect()
}
fn low(c: char) -> char {
    if c.is_ascii() { if c >= 'A' && c <= 'Z' { (c as u8 + 32) as char } else { c } } else if c == '\u{c9}' { '\u{e9}' } else { c }
}
fn eq(x: char, y: char, cs: bool) -> bool {
    if cs { x == y } else { low(x) == low(y) }
}
fn is_word(c: char) -> bool {
    c.is_alphanumeric()
}
/// a word starts or ends here (or the text does)
fn boundary(t: &[char], i: usize) -> bool {
    i == 0 || i == t.len() || is_word(t[i - 1]) != is_word(t[i])
}
/// every occurrence
fn occurrences(t: &[char], q: &[char], cs: bool, ww: bool) -> Vec<(usize, usize)> {
    let mut r = vec![];
    if q.is_empty() {
        return r;
    }
    let mut i = 0;
    while i + q.len() <= t.len() {
        let mut ok = true;
        for k in 0..q.len() {
            if !eq(t[i + k], q[k], cs) {
                ok = false;
                break;
            }
        }
        if ok && (!ww || (boundary(t, i) && boundary(t, i + q.len()))) {
            r.push((i, q.len()));
        }
        i += 1;
    }
    r
}
fn pairs(m: &[text_document::FindMatch]) -> Vec<(usize, usize)> {
    m.iter().map(|m| (m.position, m.length)).collect()
}
fn opts(cs: bool, ww: bool, re: bool, back: bool) -> text_document::FindOptions {
    text_document::FindOptions { case_sensitive: cs, whole_word: ww, use_regex: re, search_backward: back }
}
/// find_all and find agree with the list of occurrences
fn check_find(d: &TextDocument, q: &str, want: &[(usize, usize)], cs: bool, ww: bool, re: bool, from: usize) {
    let got = match d.find_all(q, &opts(cs, ww, re, sx::flag())) {
        Ok(m) => pairs(&m),
        Err(_) => sx::fail("find_all failed"),
    };
    // what was matched is not matched again
    let mut all: Vec<(usize, usize)> = vec![];
    for m in want {
        if all.last().map_or(true, |l| m.0 >= l.0 + l.1) {
            all.push(*m);
        }
    }
    sx::check(got.len() == all.len(), "find_all: number of matches");
    for i in 0..all.len() {
        sx::check(got[i] == all[i], "find_all: match");
    }
    let fwd = d.find(q, from, &opts(cs, ww, re, false)).unwrap_or_else(|_| sx::fail("find failed"));
    let w = want.iter().find(|m| m.0 >= from).copied();
    sx::check(fwd.map(|m| (m.position, m.length)) == w, "find forward");
    let back = d.find(q, from, &opts(cs, ww, re, true)).unwrap_or_else(|_| sx::fail("find failed"));
    let w = want.iter().rev().find(|m| m.0 < from).copied();
    sx::check(back.map(|m| (m.position, m.length)) == w, "find backward");
    sx::observe(got.len() as u64);
}

pub fn find() {
    let t = fill(["aa\na\u{e9}a", "\u{1f642}aaa", "a\n\naa"][sx::pick(3)], abc);
    let d = plain_doc(&t);
    let q = fill(["a", "aa", "a\u{e9}", "a\na", "", "\u{1f642}a", "\n"][sx::pick(7)], abc);
    let cs = sx::pick(2) == 0;
    let want = occurrences(&v(&t), &v(&q), cs, false);
    check_find(&d, &q, &want, cs, false, false, sx::range(0, nchars(&t) + 1));
    sx::reach(1);
    if !want.is_empty() {
        sx::reach(2);
    }
}
/// letters whose lower case is longer, shorter, or no ASCII
pub fn find_case() {
    let alphabet = ['\u{130}', 'i', '\u{c9}', '\u{e9}', 'K', '\u{212a}'];
    let n = 3;
    let mut t = String::new();
    for _ in 0..n {
        t.push(alphabet[sx::pick(6)]);
    }
    t.push_str("xy");
    let d = plain_doc(&t);
    let q = ["xy", "\u{e9}", "Xy", "i", "\u{130}x"][sx::pick(5)];
    let got = pairs(&d.find_all(q, &opts(false, false, false, false)).unwrap());
    // every reported range reads, in lower case, like the query; and the ASCII tail is found where it is
    let tv = v(&t);
    for (p, l) in &got {
        sx::check(p + l <= tv.len(), "find_all: range outside the text");
        let s: String = tv[*p..*p + *l].iter().collect();
        sx::check(s.to_lowercase() == q.to_lowercase(), "find_all: the range does not read like the query");
    }
    if q == "xy" || q == "Xy" {
        sx::check(got.len() == 1 && got[0] == (3, 2), "find_all: tail");
    }
    if q == "\u{e9}" {
        let k = tv.iter().filter(|c| **c == '\u{c9}' || **c == '\u{e9}').count();
        sx::check(got.len() == k, "find_all: number of \u{e9}");
    }
    let k = d.replace_text(q, "--", true, &opts(false, false, false, false)).unwrap();
    let mut want = String::new();
    let mut i = 0;
    let mut n = 0;
    while i < tv.len() {
        if let Some(m) = got.iter().find(|m| m.0 == i) {
            want.push_str("--");
            i += m.1;
            n += 1;
        } else {
            want.push(tv[i]);
            i += 1;
        }
    }
    sx::check(k == n, "replace_text: count");
    sx::check(plain(&d) == want, "replace_text: text");
    sx::reach(1);
    observe_doc(&d);
}
pub fn find_words() {
    let alphabet = ['a', 'b', ' ', '-', '\u{e9}', '1', '\n'];
    let mut t = String::new();
    for _ in 0..4 {
        t.push(alphabet[sx::pick(7)]);
    }
    let d = plain_doc(&t);
    let q = ["a", "a ", "ab", "-", "\u{e9}a"][sx::pick(5)];
    let want = occurrences(&v(&t), &v(q), true, true);
    check_find(&d, q, &want, true, true, false, sx::range(0, 2));
    sx::reach(1);
    if !want.is_empty() {
        sx::reach(2);
    }
}

/// the regular expressions used, each with its own leftmost-first matcher
const RES: [&str; 9] = ["a+b", "[ab]1", "a|ab", "^a", "b$", "a.b", "(?i)B", "\u{e9}+", "b\\n?a"];
fn re_match(k: usize, t: &[char], i: usize, cs: bool) -> Option<usize> {
    let at = |j: usize| t.get(j).copied();
    let is = |j: usize, c: char| at(j).map_or(false, |x| eq(x, c, cs));
    match k {
        0 => {
            let mut j = i;
            while is(j, 'a') {
                j += 1;
            }
            (j > i && is(j, 'b')).then(|| j + 1 - i)
        }
        1 => ((is(i, 'a') || is(i, 'b')) && is(i + 1, '1')).then_some(2),
        2 => is(i, 'a').then_some(1),
        3 => (i == 0 && is(0, 'a')).then_some(1),
        4 => (i + 1 == t.len() && is(i, 'b')).then_some(1),
        5 => (is(i, 'a') && at(i + 1).map_or(false, |c| c != '\n') && is(i + 2, 'b')).then_some(3),
        6 => at(i).map_or(false, |x| eq(x, 'b', false)).then_some(1),
        7 => {
            let mut j = i;
            while is(j, '\u{e9}') {
                j += 1;
            }
            (j > i).then(|| j - i)
        }
        _ => {
            if is(i, 'b') && is(i + 1, '\n') && is(i + 2, 'a') { Some(3) } else { (is(i, 'b') && is(i + 1, 'a')).then_some(2) }
        }
    }
}
fn re_all(k: usize, t: &[char], cs: bool) -> Vec<(usize, usize)> {
    let mut r = vec![];
    let mut i = 0;
    while i < t.len() {
        match re_match(k, t, i, cs) {
            Some(l) => {
                r.push((i, l));
                i += l;
            }
            None => i += 1,
        }
    }
    r
}
/// the whole search over 5 characters
pub fn find_full() {
    let t = fill(["aaaaa", "aa\n\naa\u{1f642}a"][sx::pick(2)], abc);
    let d = plain_doc(&t);
    let q = fill(["a", "aa", "aaa", "a\n"][sx::pick(4)], abc);
    let cs = sx::pick(2) == 0;
    let ww = sx::pick(2) == 0;
    let want = occurrences(&v(&t), &v(&q), cs, ww);
    check_find(&d, &q, &want, cs, ww, false, sx::range(0, nchars(&t) + 1));
    sx::reach(1);
}
fn regex(n: usize, res: &[usize]) {
    let k = res[sx::pick(res.len())];
    let alphabet = ['a', 'b', '\u{e9}', '\n', '1', 'B'];
    let mut t = String::new();
    for _ in 0..n {
        t.push(alphabet[sx::pick(6)]);
    }
    let d = plain_doc(&t);
    let tv = v(&t);
    let cs = sx::pick(2) == 0;
    let all = re_all(k, &tv, cs);
    check_find(&d, RES[k], &all, cs, false, true, sx::range(0, 1) * n);
    let every = sx::pick(2) == 0;
    let mut m = vec![];
    for x in &all {
        if !tv[x.0..x.0 + x.1].contains(&'\n') && (every || m.is_empty()) {
            m.push(*x);
        }
    }
    let c = d.replace_text(RES[k], "$1x", every, &opts(cs, false, true, false)).unwrap();
    sx::check(c == m.len(), "replace_text: count");
    sx::check(plain(&d) == replaced(&tv, &m, "$1x"), "replace_text: text");
    sx::reach(1);
    if !m.is_empty() {
        sx::reach(2);
    }
    observe_doc(&d);
}
pub fn regexes() {
    regex(3, &[0, 1, 3, 4, 7, 8])
}
pub fn regexes_full() {
    regex(4, &[0, 1, 2, 3, 4, 5, 6, 7, 8])
}
/// an invalid pattern is refused and changes nothing
pub fn bad_regex() {
    let d = build(1);
    let s = state(&d);
    let q = ["(", "[a", "a{2", "*"][sx::pick(4)];
    let o = opts(sx::flag(), false, true, sx::flag());
    if q == "a{2" {
        // not an error in every regex dialect; it must not find anything here
        if let Ok(m) = d.find_all(q, &o) { sx::check(m.is_empty(), "odd match") }
        return;
    }
    sx::check(d.find_all(q, &o).is_err(), "find_all accepted an invalid pattern");
    sx::check(d.find(q, 0, &o).is_err(), "find accepted an invalid pattern");
    sx::check(d.replace_text(q, "x", true, &o).is_err(), "replace_text accepted an invalid pattern");
    check_same(&s, &state(&d), "a refused replacement changed the document");
    sx::check(!d.can_undo(), "a refused replacement left an undo step");
    sx::reach(1);
}

fn replaced(t: &[char], m: &[(usize, usize)], r: &str) -> String {
    let mut o = String::new();
    let mut i = 0;
    for x in m {
        o.extend(&t[i..x.0]);
        o.push_str(r);
        i = x.0 + x.1;
    }
    o.extend(&t[i..]);
    o
}
/// leftmost matches that do not overlap and lie inside one block
fn to_replace(t: &[char], occ: &[(usize, usize)], every: bool) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = vec![];
    let mut end = 0;
    for m in occ {
        if m.0 < end || t[m.0..m.0 + m.1].contains(&'\n') {
            continue;
        }
        if r.len() == 1 && !every {
            break;
        }
        end = m.0 + m.1;
        r.push(*m);
    }
    r
}
fn replace_in(d: &TextDocument, q: &str, r: &str, cs: bool, ww: bool, every: bool) {
    d.clear_undo_redo();
    let before = chars(d);
    let t: Vec<char> = before.iter().map(|c| c.0).collect();
    let m = to_replace(&t, &occurrences(&t, &v(q), cs, ww), every);
    let mut want: Chars = before.clone();
    for x in m.iter().rev() {
        let del = put(&want, x.0, x.0 + x.1, "", &TextFormat::default());
        let f = inherit(&del, x.0);
        want = put(&del, x.0, x.0, r, &f);
    }
    let s = state(d);
    if DBG { dump(d, "before"); sx::note(q); sx::note(r); }
    let n = match d.replace_text(q, r, every, &opts(cs, ww, false, sx::flag())) {
        Ok(n) => n,
        Err(_) => sx::fail("replace_text failed"),
    };
    if DBG { dump(d, "after"); }
    sx::check(n == m.len(), "replace_text: count");
    same(&chars(d), &want, "replace_text");
    coherent(d);
    sx::reach(1);
    if n == 0 {
        check_same(&s, &state(d), "replace_text without a match changed the document");
        return;
    }
    sx::reach(2);
    if n > 1 {
        sx::reach(3);
    }
    let after = state(d);
    sx::check(d.undo().is_ok(), "undo failed");
    check_same(&s, &state(d), "undo of replace_text");
    sx::check(d.redo().is_ok(), "redo failed");
    check_same(&after, &state(d), "redo of replace_text");
    observe_doc(d);
}
pub fn replace_flat() {
    let t = fill(["aaaa", "aa\na\u{e9}a", "\na\naa"][sx::pick(3)], ab);
    let d = plain_doc(&t);
    if sx::flag() && nchars(&t) > 2 {
        sel(&d, 1, 2).merge_char_format(&fmt_bold()).unwrap();
    }
    let q = fill(["a", "aa", "a\na"][sx::pick(3)], ab);
    let r = ["", "b", "\u{1f642}a"][sx::pick(3)];
    replace_in(&d, &q, r, true, false, sx::pick(2) == 0);
}
/// in tables, frames, and behind edits that leave positions pending
fn structured(full: bool) {
    let d = match sx::pick(4) {
        0 => {
            let d = table("ab\nab", true);
            d
        }
        1 => table("ab\nab", false),
        _ => stale_doc(sx::pick(5)),
    };
    let t = v(&whole(&d));
    let n = t.len();
    let i = sx::range(0, n - 1);
    let l = if full { 1 + sx::pick(4) } else { 1 + sx::pick(2) };
    if i + l > n {
        return;
    }
    let q: String = t[i..i + l].iter().collect();
    let occ = occurrences(&t, &v(&q), true, false);
    check_find(&d, &q, &occ, true, false, false, i);
    let r = ["", "ab", "\u{e9}\u{4e2d}c"][sx::pick(3)];
    replace_in(&d, &q, r, true, false, sx::pick(2) == 0);
    // and once more, on top
    let t = v(&whole(&d));
    let occ = occurrences(&t, &v("b"), true, false);
    check_find(&d, "b", &occ, true, false, false, 0);
    replace_in(&d, "b", "xyz", true, false, true);
}
/// a table or a sub-frame with text "ab" everywhere, edited before
fn table(t: &str, frame: bool) -> TextDocument {
    let d = plain_doc(t);
    if frame {
        d.cursor_at(2).insert_frame().unwrap();
        d.cursor_at(3).insert_text("bab").unwrap();
        d.cursor_at(0).insert_text("b").unwrap();
    } else {
        let tb = d.cursor_at(2).insert_table(2, 1).unwrap();
        for r in 0..2 {
            let b = tb.cell(r, 0).unwrap().blocks();
            d.cursor_at(b[0].position()).insert_text("ba").unwrap();
        }
        d.cursor_at(0).insert_text("b").unwrap();
    }
    d
}
pub fn replace_struct() { structured(false) }
pub fn replace_struct_full() { structured(true) }
/// two replacements in a row and the options
pub fn replace_opts() {
    let t = fill("a a\u{e9}\naa", abc);
    let d = plain_doc(&t);
    let q = ["a", "B", "ab"][sx::pick(3)];
    let ww = sx::pick(2) == 0;
    replace_in(&d, q, "a-", sx::pick(2) == 0, ww, true);
}
