//! C07: formatting a range changes exactly that range and exactly the given
//! fields. C08: formats travel with their characters through text edits.
use crate::c_text::stale_doc;
use crate::docs::*;
use crate::sx;
use crate::util::*;
use common::format_runs as fr;
const DBG: bool = cfg!(feature = "dbg");

/// every position's character and its format; separators are '\n'
pub type Chars = Vec<(char, TextFormat)>;
pub fn chars(d: &TextDocument) -> Chars {
    let mut v = vec![];
    for (i, b) in d.blocks().iter().enumerate() {
        if i > 0 {
            v.push(('\n', TextFormat::default()));
        }
        for f in b.fragments() {
            if let FragmentContent::Text { text, format, .. } = f {
                for c in text.chars() {
                    v.push((c, format.clone()));
                }
            } else {
                v.push(('\u{fffc}', TextFormat::default()));
            }
        }
    }
    v
}

fn opt(k: usize) -> Option<bool> {
    match k {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}
/// a format with symbolic values in a few of its fields
fn any_format(rich: bool) -> TextFormat {
    let mut f = TextFormat::default();
    match sx::pick(if rich { 6 } else { 4 }) {
        0 => f.font_bold = opt(1 + sx::pick(2)),
        1 => {
            f.font_italic = Some(sx::flag());
            f.font_point_size = Some(sx::sym(1, 9) as u32);
        }
        2 => {
            f.font_underline = Some(true);
            f.font_strikeout = Some(sx::flag());
            f.font_family = Some(String::from("Mono"));
            f.letter_spacing = Some(sx::sym(0, 7) as i32);
        }
        3 => {
            f.font_weight = Some(sx::any_u32());
            f.font_overline = Some(true);
            f.underline_style = Some(UnderlineStyle::WaveUnderline);
            f.vertical_alignment = Some(CharVerticalAlignment::SuperScript);
            f.word_spacing = Some(sx::sym(0, 1000) as i32);
        }
        4 => f.font_family = Some(String::new()),
        _ => {}
    }
    f
}
pub fn apply_set(b: &TextFormat, f: &TextFormat) -> TextFormat {
    let mut o = apply_merge(b, f);
    macro_rules! put { ($($n:ident),*) => { $(if f.$n.is_some() { o.$n = f.$n.clone(); })* } }
    put!(font_family, font_point_size, font_weight, font_overline, letter_spacing, word_spacing, underline_style, vertical_alignment);
    o
}
pub fn apply_merge(b: &TextFormat, f: &TextFormat) -> TextFormat {
    let mut o = b.clone();
    macro_rules! put { ($($n:ident),*) => { $(if f.$n.is_some() { o.$n = f.$n.clone(); })* } }
    put!(font_bold, font_italic, font_underline, font_strikeout);
    if let Some(x) = &f.font_family {
        if !x.is_empty() {
            o.font_family = Some(x.clone());
        }
    }
    o
}
fn expect(base: &Chars, s: usize, e: usize, set: bool, f: &TextFormat) -> Chars {
    let mut v = base.clone();
    for (i, x) in v.iter_mut().enumerate() {
        if i >= s && i < e && x.0 != '\n' {
            x.1 = if set { apply_set(&x.1, f) } else { apply_merge(&x.1, f) };
        }
    }
    v
}
pub fn same(got: &Chars, want: &Chars, m: &str) {
    let mut s = String::from(m);
    if got.len() != want.len() {
        s.push_str(": number of positions");
        sx::fail(&s);
    }
    for i in 0..got.len() {
        if got[i].0 != want[i].0 {
            s.push_str(": characters");
            sx::fail(&s);
        }
        if got[i].1 != want[i].1 {
            s.push_str(": formats");
            sx::fail(&s);
        }
    }
}
/// the caret queries and fragments tell the same formats
pub fn queries(d: &TextDocument, want: &Chars) {
    for (i, w) in want.iter().enumerate() {
        if w.0 != '\n' {
            match d.cursor_at(i).char_format() {
                Ok(f) => sx::check(f == w.1, "char_format at a caret"),
                Err(_) => sx::fail("char_format failed"),
            }
        }
    }
    for b in d.blocks() {
        check_fragments(&b.text(), &b.fragments());
    }
}

fn range(sets: usize, full: bool) {
    let d = match sets {
        0 => build([0, 1, 4][sx::pick(3)]),
        1 => stale_doc(sx::pick(5)),
        _ => build(5 + sx::pick(2)),
    };
    let n = end_of(&d);
    let p = sx::range(0, n);
    let a = if full { sx::range(0, n) } else { [p, (p + 1).min(n), (p + 4).min(n), 0, n][sx::pick(5)] };
    let c = sel(&d, a, p);
    let (p, a) = (c.position(), c.anchor());
    let (s, e) = (p.min(a), p.max(a));
    let base = chars(&d);
    let set = sx::pick(2) == 1;
    let f = any_format(full);
    if DBG { dump(&d, "before"); }
    if set { c.set_char_format(&f).unwrap() } else { c.merge_char_format(&f).unwrap() }
    if DBG { dump(&d, "after"); }
    let want = expect(&base, s, e, set, &f);
    same(&chars(&d), &want, "format of a range");
    queries(&d, &want);
    sx::check(c.position() == p && c.anchor() == a, "formatting moved the cursor");
    sx::reach(1 + set as u64);
    observe_doc(&d);
    if d.can_undo() {
        d.undo().unwrap();
        same(&chars(&d), &base, "formats after undo");
        d.redo().unwrap();
        same(&chars(&d), &want, "formats after redo");
    }
}
pub fn range_flat() { range(0, false) }
pub fn range_stale() { range(1, false) }
pub fn range_struct() { range(2, false) }
pub fn range_full() { range(sx::pick(3), true) }

/// two overlapping formats in a block of characters of 1 to 4 bytes
pub fn two() { overlap(2) }
pub fn three() { overlap(3) }
fn overlap(k: usize) {
    let d = plain_doc("a\u{e9}\u{1f642}b\nc");
    let mut want = chars(&d);
    for _ in 0..k {
        let s = sx::range(0, 5);
        let e = sx::range(s, 6);
        let set = sx::pick(2) == 1;
        let f = match sx::pick(3) {
            0 => TextFormat { font_bold: Some(sx::flag()), ..Default::default() },
            1 => TextFormat { font_italic: Some(true), ..Default::default() },
            _ => TextFormat { font_bold: Some(true), font_underline: Some(false), ..Default::default() },
        };
        let c = sel(&d, e, s);
        if set { c.set_char_format(&f).unwrap() } else { c.merge_char_format(&f).unwrap() }
        want = expect(&want, s, e, set, &f);
    }
    same(&chars(&d), &want, "formats of overlapping ranges");
    queries(&d, &want);
    sx::reach(1);
    observe_doc(&d);
}

// ------------------------------------------------------------ run kernel

/// largest byte offset of the run kernels
static mut MAXLEN: u64 = 0xff;
fn off() -> u32 {
    sx::sym(0, unsafe { MAXLEN }) as u32
}
fn wide() {
    unsafe { MAXLEN = 0x3fff_ffff }
}
fn kf(k: u64) -> fr::CharacterFormat {
    let mut f = fr::CharacterFormat::default();
    f.font_point_size = Some(k as i64);
    f
}
/// well-formed runs with free boundaries and free formats, and the length of
/// the text they cover
fn any_runs(n: usize) -> (Vec<fr::FormatRun>, u32) {
    let len = off();
    let mut v: Vec<fr::FormatRun> = vec![];
    for _ in 0..n {
        let a = off();
        let b = off();
        let f = sx::sym(0, 2);
        sx::assume((a < b) & (b <= len));
        if let Some(p) = v.last() {
            sx::assume(p.byte_end <= a);
            sx::assume((p.byte_end < a) | (p.format.font_point_size != Some(f as i64)));
        }
        v.push(fr::FormatRun { byte_start: a, byte_end: b, format: kf(f) });
    }
    (v, len)
}
/// the format of byte x: 0 when unformatted, else size + 1
fn at(v: &[fr::FormatRun], x: u32) -> u64 {
    for k in v {
        if (k.byte_start <= x) & (x < k.byte_end) {
            return k.format.font_point_size.unwrap_or(99) as u64 + 1;
        }
    }
    0
}
fn well_formed(v: &[fr::FormatRun], len: u32, coalesced: bool, m: &str) {
    for (i, k) in v.iter().enumerate() {
        sx::check((k.byte_start < k.byte_end) & (k.byte_end <= len), m);
        if i > 0 {
            sx::check(v[i - 1].byte_end <= k.byte_start, m);
            if coalesced && v[i - 1].byte_end == k.byte_start {
                sx::check(v[i - 1].format != k.format, m);
            }
        }
    }
}
pub fn kernel_splice() {
    let (base, len) = any_runs(2);
    let s = off();
    let e = off();
    sx::assume((s <= e) & (e <= len));
    let x = off();
    sx::assume(x < len);
    let mut rep = vec![];
    if sx::flag() {
        let a = off();
        let b = off();
        sx::assume((s <= a) & (a < b) & (b <= e));
        rep.push(fr::FormatRun { byte_start: a, byte_end: b, format: kf(sx::sym(0, 2)) });
    }
    let mut r = base.clone();
    fr::splice_range(&mut r, s..e, rep.clone());
    well_formed(&r, len, true, "splice_range leaves malformed runs");
    let inside = (s <= x) & (x < e);
    let want = if inside { at(&rep, x) } else { at(&base, x) };
    sx::check(at(&r, x) == want, "splice_range changes the format of another byte");
    // what was captured puts the range back
    let cap = fr::capture_runs_in_range(&base, s, e);
    well_formed(&cap, len, false, "capture_runs_in_range is malformed");
    sx::check(at(&cap, x) == if inside { at(&base, x) } else { 0 }, "capture_runs_in_range");
    fr::splice_range(&mut r, s..e, cap);
    well_formed(&r, len, true, "restored runs are malformed");
    sx::check(at(&r, x) == at(&base, x), "captured runs do not restore the range");
    sx::reach(1);
}
pub fn kernel_insert() {
    let (base, len) = any_runs(2);
    let p = off();
    let n = off();
    sx::assume(p <= len);
    let x = off();
    sx::assume(x < len + n);
    let mut r = base.clone();
    fr::shift_runs_for_insert(&mut r, p, n);
    well_formed(&r, len + n, false, "shift_runs_for_insert leaves malformed runs");
    if x < p {
        sx::check(at(&r, x) == at(&base, x), "insert changes the format before it");
    } else if x < p + n {
        let w = if p == 0 { 0 } else { at(&base, p - 1) };
        sx::check(at(&r, x) == w, "inserted bytes do not take the format before them");
    } else {
        sx::check(at(&r, x) == at(&base, x - n), "insert changes the format behind it");
    }
    sx::reach(1);
}
pub fn kernel_delete() {
    let (base, len) = any_runs(2);
    let s = off();
    let e = off();
    sx::assume((s <= e) & (e <= len));
    let x = off();
    let l2 = len - (e - s);
    sx::assume(x < l2);
    let mut r = base.clone();
    fr::shift_runs_for_delete(&mut r, s, e);
    well_formed(&r, l2, true, "shift_runs_for_delete leaves malformed runs");
    let w = if x < s { at(&base, x) } else { at(&base, x + (e - s)) };
    sx::check(at(&r, x) == w, "delete changes the format of another byte");
    sx::reach(1);
}
pub fn kernel_split() {
    let (base, len) = any_runs(2);
    let p = off();
    sx::assume(p <= len);
    let x = off();
    sx::assume(x < len);
    let (l, r) = fr::split_runs_at(&base, p);
    well_formed(&l, p, true, "left part malformed");
    well_formed(&r, len - p, true, "right part malformed");
    if x < p {
        sx::check(at(&l, x) == at(&base, x), "split changes the left formats");
    } else {
        sx::check(at(&r, x - p) == at(&base, x), "split changes the right formats");
    }
    sx::reach(1);
}
pub fn kernel_wide() {
    wide();
    match sx::pick(4) {
        0 => kernel_splice(),
        1 => kernel_insert(),
        2 => kernel_delete(),
        _ => kernel_split(),
    }
}
/// three runs, same obligations
pub fn kernel_three() {
    let (base, len) = any_runs(3);
    let s = off();
    let e = off();
    sx::assume((s <= e) & (e <= len));
    let x = off();
    sx::assume(x < len);
    let f = sx::sym(0, 2);
    let rep = if s < e { vec![fr::FormatRun { byte_start: s, byte_end: e, format: kf(f) }] } else { vec![] };
    let mut r = base.clone();
    fr::splice_range(&mut r, s..e, rep);
    well_formed(&r, len, true, "splice_range leaves malformed runs");
    let w = if (s <= x) & (x < e) { f + 1 } else { at(&base, x) };
    sx::check(at(&r, x) == w, "splice_range changes the format of another byte");
    let mut r = base.clone();
    fr::shift_runs_for_delete(&mut r, s, e);
    let l2 = len - (e - s);
    well_formed(&r, l2, true, "shift_runs_for_delete leaves malformed runs");
    if x < l2 {
        let w = if x < s { at(&base, x) } else { at(&base, x + (e - s)) };
        sx::check(at(&r, x) == w, "delete changes the format of another byte");
    }
    sx::reach(1);
}

// ------------------------------------------------------------ C08

/// what formatted insertion gives the new characters
pub fn inserted(f: &TextFormat) -> TextFormat {
    TextFormat {
        font_family: Some(f.font_family.clone().unwrap_or_default()),
        font_point_size: Some(f.font_point_size.unwrap_or(0)),
        font_bold: Some(f.font_bold.unwrap_or(false)),
        font_italic: Some(f.font_italic.unwrap_or(false)),
        font_underline: Some(f.font_underline.unwrap_or(false)),
        font_strikeout: Some(f.font_strikeout.unwrap_or(false)),
        ..Default::default()
    }
}
/// format that plain insertion at position s takes
pub fn inherit(v: &Chars, s: usize) -> TextFormat {
    if s > 0 && v[s - 1].0 != '\n' { v[s - 1].1.clone() } else { TextFormat::default() }
}
pub fn put(v: &Chars, s: usize, e: usize, t: &str, f: &TextFormat) -> Chars {
    let mut r: Chars = v[..s].to_vec();
    for c in t.chars() {
        r.push((c, if c == '\n' { TextFormat::default() } else { f.clone() }));
    }
    r.extend_from_slice(&v[e..]);
    r
}
/// a document whose every character class and run boundary is exercised
fn runs_doc(k: usize) -> TextDocument {
    match k {
        0 => build(1),
        1 => {
            let d = plain_doc("a\u{e9}\u{1f642}b\ncd\n\nef");
            sel(&d, 0, 2).merge_char_format(&fmt_bold()).unwrap();
            sel(&d, 2, 3).set_char_format(&fmt_italic_size(7)).unwrap();
            sel(&d, 5, 10).merge_char_format(&fmt_bold()).unwrap();
            d
        }
        2 => {
            let d = plain_doc("ab\ncd\nef");
            sel(&d, 1, 7).set_char_format(&fmt_italic_size(5)).unwrap();
            d.cursor_at(1).insert_text("\u{e9}q\u{1f642}").unwrap();
            d
        }
        _ => {
            let d = build(5);
            let n = end_of(&d);
            sel(&d, 1, n).merge_char_format(&fmt_bold()).unwrap();
            d
        }
    }
}
fn travel(sets: usize, full: bool) {
    let d = match sets {
        0 => runs_doc(sx::pick(3)),
        _ => runs_doc(3),
    };
    d.clear_undo_redo();
    barrier();
    let base = chars(&d);
    let n = end_of(&d);
    let p = sx::range(0, n);
    let a = if full { sx::range(0, n) } else { [p, (p + 1).min(n), (p + 4).min(n), 0][sx::pick(4)] };
    let c = sel(&d, a, p);
    let (p, a) = (c.position(), c.anchor());
    let (s, e) = (p.min(a), p.max(a));
    if sets == 1 {
        let inside = d.blocks().iter().any(|k| s >= k.position() && e <= k.position() + k.length());
        if !inside { return; }
    }
    let op = sx::pick(if sets == 1 { 3 } else { 8 });
    if DBG { dump(&d, "before"); }
    let x = letters(2);
    let none = TextFormat::default();
    let want = match op {
        0 => {
            c.insert_text(&x).unwrap();
            let del = put(&base, s, e, "", &none);
            put(&del, s, s, &x, &inherit(&del, s))
        }
        1 => {
            let f = TextFormat { font_bold: Some(sx::flag()), font_point_size: Some(sx::sym(1, 9) as u32), font_family: Some(String::from("F")), font_underline: Some(true), ..Default::default() };
            c.insert_formatted_text("\u{e9}\u{4e2d}", &f).unwrap();
            put(&base, s, e, "\u{e9}\u{4e2d}", &inserted(&f))
        }
        2 => {
            c.remove_selected_text().unwrap();
            put(&base, s, e, "", &none)
        }
        3 => {
            c.insert_block().unwrap();
            put(&base, s, e, "\n", &none)
        }
        4 => {
            c.delete_char().unwrap();
            put(&base, s, if s == e { (s + 1).min(n) } else { e }, "", &none)
        }
        5 => {
            c.delete_previous_char().unwrap();
            let s = if s == e { s.saturating_sub(1) } else { s };
            put(&base, s, e, "", &none)
        }
        6 => {
            c.insert_fragment(&DocumentFragment::from_plain_text(&x)).unwrap();
            put(&base, s, e, &x, &none)
        }
        _ => {
            let mut t = x.clone();
            t.push_str("\n\u{e9}");
            c.insert_fragment(&DocumentFragment::from_plain_text(&t)).unwrap();
            put(&base, s, e, &t, &none)
        }
    };
    if DBG { dump(&d, "after"); }
    let m = ["insert_text", "insert_formatted_text", "remove_selected_text", "insert_block", "delete_char", "delete_previous_char", "insert_fragment(word)", "insert_fragment(2 blocks)"][op];
    same(&chars(&d), &want, m);
    queries(&d, &want);
    sx::reach(1 + op as u64);
    observe_doc(&d);
    if d.can_undo() {
        d.undo().unwrap();
        same(&chars(&d), &base, "formats after undo");
        d.redo().unwrap();
        same(&chars(&d), &want, "formats after redo");
    }
}
fn barrier() { crate::ops::barrier() }
pub fn travel_flat() { travel(0, false) }
pub fn travel_struct() { travel(1, false) }
pub fn travel_full() { travel(sx::pick(2), true) }
/// two edits in a row on formatted text
pub fn travel_two() {
    let d = plain_doc("a\u{e9}b\ncd");
    sel(&d, 1, 5).merge_char_format(&fmt_bold()).unwrap();
    let mut want = chars(&d);
    let none = TextFormat::default();
    for i in 0..2 {
        let n = end_of(&d);
        let s = sx::range(0, n);
        let e = (s + sx::pick(2) * 2).min(n);
        let c = sel(&d, e, s);
        want = match sx::pick(4) {
            0 => {
                c.insert_text("\u{1f642}").unwrap();
                let del = put(&want, s, e, "", &none);
                put(&del, s, s, "\u{1f642}", &inherit(&del, s))
            }
            1 => {
                c.insert_block().unwrap();
                put(&want, s, e, "\n", &none)
            }
            2 => {
                c.delete_previous_char().unwrap();
                put(&want, if s == e { s.saturating_sub(1) } else { s }, e, "", &none)
            }
            _ => {
                c.set_char_format(&fmt_italic_size(4)).unwrap();
                expect(&want, s, e, true, &fmt_italic_size(4))
            }
        };
        same(&chars(&d), &want, "formats after two edits");
        sx::reach(1 + i);
    }
    queries(&d, &want);
    observe_doc(&d);
}
