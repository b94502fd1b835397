//! C12: what is exported comes back when it is imported, every paragraph of a
//! document is exported once, and an import replaces the whole document.
use crate::c_frag::*;
use crate::docs::*;
use crate::ops::*;
use crate::sx;
use crate::util::*;

/// how a character looks, as far as HTML and Markdown can say
#[derive(Clone, PartialEq, Debug)]
pub struct Look {
    bold: bool,
    italic: bool,
    under: bool,
    strike: bool,
    mono: bool,
    link: Option<String>,
}
fn look(f: &TextFormat) -> Look {
    Look {
        bold: f.font_bold == Some(true),
        italic: f.font_italic == Some(true),
        under: f.font_underline == Some(true),
        strike: f.font_strikeout == Some(true),
        mono: f.font_family.as_deref() == Some("monospace"),
        link: f.anchor_href.clone(),
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct Para {
    pub t: Vec<(char, Look)>,
    head: Option<u8>,
    /// ordered or not
    list: Option<bool>,
    code: bool,
    lang: Option<String>,
    /// line height, right to left, background, unbroken lines (HTML only)
    style: Option<(Option<u32>, bool, Option<String>, bool)>,
    /// block quotes around it
    quote: usize,
    /// row, column
    cell: Option<(usize, usize)>,
}
fn quoted(els: &[FlowElementSnapshot], depth: usize, out: &mut Vec<(BlockSnapshot, usize)>) {
    for e in els {
        match e {
            FlowElementSnapshot::Frame(f) => {
                quoted(&f.elements, depth + (f.format.is_blockquote == Some(true)) as usize, out)
            }
            x => {
                let mut v = vec![];
                flat(std::slice::from_ref(x), &mut v);
                out.extend(v.into_iter().map(|b| (b.clone(), depth)));
            }
        }
    }
}
pub fn paras(d: &TextDocument, html: bool) -> Vec<Para> {
    let flow = d.snapshot_flow();
    let mut fl = vec![];
    quoted(&flow.elements, 0, &mut fl);
    fl.iter()
        .map(|(b, quote)| {
            let mut t = vec![];
            for f in &b.fragments {
                if let FragmentContent::Text { text, format, .. } = f {
                    let mut l = look(format);
                    if !html {
                        l.under = false;
                    }
                    if b.block_format.is_code_block == Some(true) {
                        l.mono = true;
                    }
                    for c in text.chars() {
                        t.push((c, l.clone()));
                    }
                }
            }
            Para {
                t,
                head: b.block_format.heading_level,
                list: b.list_info.as_ref().map(|l| {
                    !matches!(l.style, ListStyle::Disc | ListStyle::Circle | ListStyle::Square)
                }),
                code: b.block_format.is_code_block == Some(true),
                lang: b.block_format.code_language.clone(),
                style: (html && b.list_info.is_none() && b.table_cell.is_none() && b.block_format.is_code_block != Some(true)).then(|| {
                    let f = &b.block_format;
                    (f.line_height.map(|x| (x * 1000.0).round() as u32), f.direction == Some(TextDirection::RightToLeft), f.background_color.clone(), f.non_breakable_lines == Some(true))
                }),
                quote: *quote,
                cell: b.table_cell.as_ref().map(|c| (c.row, c.column)),
            }
        })
        .collect()
}
/// the paragraphs that hold something
fn filled(v: Vec<Para>) -> Vec<Para> {
    v.into_iter().filter(|p| !p.t.is_empty() || p.cell.is_some()).collect()
}
fn same_paras(a: &[Para], b: &[Para], m: &str) {
    let e = |s: &str| {
        let mut x = String::from(m);
        x.push_str(s);
        x
    };
    sx::check(a.len() == b.len(), &e(": other paragraphs come back"));
    for (x, y) in a.iter().zip(b) {
        let tx: String = x.t.iter().map(|c| c.0).collect();
        let ty: String = y.t.iter().map(|c| c.0).collect();
        sx::check(tx == ty, &e(": another text comes back"));
        for (c, k) in x.t.iter().zip(&y.t) {
            sx::check(c.1 == k.1, &e(": another format comes back"));
        }
        sx::check(x.head == y.head, &e(": another heading level comes back"));
        sx::check(x.list == y.list, &e(": another list comes back"));
        sx::check(x.code == y.code, &e(": a code block does not come back"));
        sx::check(x.lang == y.lang, &e(": another code language comes back"));
        sx::check(x.style == y.style, &e(": another paragraph style comes back"));
        sx::check(x.quote == y.quote, &e(": another block quote comes back"));
        sx::check(x.cell == y.cell, &e(": a table cell comes back elsewhere"));
    }
}
pub fn load(html: bool, t: &str) -> TextDocument {
    let d = TextDocument::new();
    load_into(&d, html, t);
    d
}
pub fn load_into(d: &TextDocument, html: bool, t: &str) {
    let ok = if html {
        d.set_html(t).and_then(|o| o.wait()).is_ok()
    } else {
        d.set_markdown(t).and_then(|o| o.wait()).is_ok()
    };
    sx::check(ok, "an import fails");
}
fn export(d: &TextDocument, html: bool) -> String {
    match if html { d.to_html() } else { d.to_markdown() } {
        Ok(t) => t,
        Err(_) => sx::fail("an export fails"),
    }
}
fn round(d: &TextDocument, html: bool) {
    let before = state(d);
    let t = export(d, html);
    check_same(&before, &state(d), "exporting changes the document");
    if cfg!(feature = "dbg") {
        sx::note(&t);
    }
    let e = load(html, &t);
    coherent(&e);
    same_paras(
        &filled(paras(d, html)),
        &filled(paras(&e, html)),
        if html { "HTML" } else { "Markdown" },
    );
    observe_doc(&e);
}
/// any printable character of ASCII
fn printable() -> char {
    sx::sym(0x20, 0x7e) as u8 as char
}
fn some_format(k: usize) -> TextFormat {
    TextFormat {
        font_bold: (k == 1 || k == 2).then_some(true),
        font_italic: (k == 0 || k == 2).then_some(true),
        font_underline: (k == 3).then_some(true),
        font_strikeout: (k == 4).then_some(true),
        font_family: (k == 5).then(|| "monospace".to_string()),
        anchor_href: (k == 6).then(|| "http://x.y/?a=b&c".to_string()),
        is_anchor: (k == 6).then_some(true),
        ..Default::default()
    }
}
/// n printable characters between letters
fn text_doc(n: usize, edge: bool) -> TextDocument {
    let mut t = String::from("xy\n");
    if !edge {
        t.push('p');
    }
    for i in 0..n {
        let c = printable();
        if i == 0 || i == n - 1 {
            sx::assume(!edge || c != ' ');
        }
        t.push(c);
    }
    if !edge {
        t.push('q');
    }
    t.push_str("\nz");
    plain_doc(&t)
}
pub fn html_text1() {
    round(&text_doc(1, false), true);
}
pub fn html_edge1() {
    round(&text_doc(1, true), true);
}
pub fn html_text2() {
    round(&text_doc(2, false), true);
}
pub fn html_edge2() {
    round(&text_doc(2, true), true);
}
pub fn html_text3() {
    round(&text_doc(3, true), true);
}
pub fn md_text2() {
    round(&text_doc(2, false), false);
}
pub fn md_edge1() {
    round(&text_doc(1, true), false);
}
pub fn md_edge2() {
    round(&text_doc(2, true), false);
}
pub fn md_text3() {
    round(&text_doc(3, true), false);
}
/// formats over a range of a text
fn formats(html: bool) {
    let d = plain_doc(if html { "x\nab\u{e9}d\u{1f642}f\nz" } else { "x\nab\u{e9}d\u{4e2d}f\nz" });
    let s = sx::range(2, 7);
    let e = sx::range(s + 1, 8);
    let k = sx::pick(if html { 7 } else { 6 });
    let k = if !html && k >= 3 { k + 1 } else { k };
    sel(&d, s, e).merge_char_format(&some_format(k)).unwrap();
    sx::reach(k as u64);
    round(&d, html);
}
pub fn html_formats() {
    formats(true);
}
pub fn md_formats() {
    formats(false);
}
pub fn html_formats2() {
    let d = plain_doc("x\nabcd\nz");
    for _ in 0..2 {
        let s = sx::range(2, 5);
        let e = sx::range(s + 1, 6);
        sel(&d, s, e).merge_char_format(&some_format(sx::pick(7))).unwrap();
    }
    round(&d, true);
}
/// the look of a paragraph
fn looks(html: bool) {
    let d = plain_doc("ab\ncd\nef\ngh");
    let s = sx::pick(12);
    let e = sx::range(s, 11);
    let c = sel(&d, s, e);
    match sx::pick(4) {
        0 => {
            let l = sx::range(1, 6) as u8;
            c.set_block_format(&BlockFormat { heading_level: Some(l), ..Default::default() }).unwrap();
            sx::reach(0);
        }
        1 => {
            c.create_list([ListStyle::Disc, ListStyle::Square, ListStyle::Decimal, ListStyle::LowerAlpha][sx::pick(4)].clone()).unwrap();
            sx::reach(1);
        }
        2 => {
            c.set_block_format(&BlockFormat { is_code_block: Some(true), code_language: sx::flag().then(|| "r".to_string()), ..Default::default() }).unwrap();
            sx::reach(2);
        }
        _ => {
            c.set_block_format(&BlockFormat { alignment: Some(Alignment::Center), line_height: Some(1.5), direction: Some(TextDirection::RightToLeft), background_color: sx::flag().then(|| "red".to_string()), non_breakable_lines: sx::flag().then_some(true), ..Default::default() }).unwrap();
            sx::reach(3);
        }
    }
    round(&d, html);
}
pub fn html_looks() {
    looks(true);
}
pub fn md_looks() {
    looks(false);
}
/// a paragraph of each kind
fn make(d: &TextDocument, b: usize, kind: usize) {
    let bl = d.blocks();
    let p = bl[b].position();
    let c = sel(d, p, p + bl[b].length());
    match kind {
        1 => c.set_block_format(&BlockFormat { heading_level: Some(2), ..Default::default() }).unwrap(),
        2 => {
            c.create_list(ListStyle::Disc).unwrap();
        }
        3 => {
            c.create_list(ListStyle::Decimal).unwrap();
        }
        4 => c.set_block_format(&BlockFormat { is_code_block: Some(true), ..Default::default() }).unwrap(),
        _ => {}
    }
}
/// paragraphs of every kind beside each other
fn kinds(html: bool) {
    let d = plain_doc("ab\ncd\nef\ngh");
    for b in 0..4 {
        make(&d, b, sx::pick(5));
    }
    round(&d, html);
}
pub fn html_kinds() {
    kinds(true);
}
pub fn md_kinds() {
    kinds(false);
}
/// a character in every place
fn places(html: bool, edge: bool) {
    let c = printable();
    let mut t = String::from(if edge { "" } else { "p" });
    sx::assume(!edge || c != ' ');
    t.push(c);
    if !edge {
        t.push('q');
    }
    let k = sx::pick(8);
    sx::reach(k as u64);
    let d = match k {
        0..=4 => {
            let d = plain_doc(&["xy", &t, "zz"].join("\n"));
            make(&d, 1, k);
            d
        }
        5 => {
            let d = plain_doc("xy\nzz");
            let tb = d.cursor_at(2).insert_table(2, 2).unwrap();
            let b = tb.cell(sx::pick(2), sx::pick(2)).unwrap().blocks();
            d.cursor_at(b[0].position()).insert_text(&t).unwrap();
            d
        }
        6 => {
            let d = load(true, "<p>xy</p><blockquote><p>u</p><p>v</p></blockquote><p>zz</p>");
            let bl = d.blocks();
            let p = bl.iter().find(|b| b.text() == if edge { "v" } else { "u" }).unwrap().position();
            sel(&d, p, p + 1).insert_text(&t).unwrap();
            d
        }
        _ => {
            let d = plain_doc(&["xy", &t, "zz"].join("\n"));
            let n = t.chars().count();
            sx::assume(html || !"*_~`[]()<>!&\\".contains(c));
            let f = sx::pick(6);
            let f = if f >= 3 { f + 1 } else { f };
            sx::assume(html || f != 5 || c != '`');
            sx::assume(html || c.is_ascii_alphanumeric() || !edge);
            sel(&d, 3, 3 + n).merge_char_format(&some_format(f)).unwrap();
            d
        }
    };
    round(&d, html);
}
pub fn html_places() {
    places(true, false);
}
pub fn md_places() {
    places(false, false);
}
pub fn html_places_edge() {
    places(true, true);
}
pub fn md_places_edge() {
    places(false, true);
}
/// a link to anywhere
fn links(html: bool, most: usize) {
    const HREF: [&str; 18] = [
        " ", "&quot;", "#", "%", "&amp;", "'", "(", ")", "*", "&lt;", "&gt;", "[", "]", "\\", "_", "`", "!", "a",
    ];
    let mut h = String::from("http://x/");
    for _ in 0..sx::range(1, most) {
        h.push_str(HREF[sx::pick(HREF.len())]);
    }
    let d = load(true, &format!("<p>xy</p><p>a<a href=\"{h}y\">bc</a>d</p><p>zz</p>"));
    round(&d, html);
}
pub fn html_links() {
    links(true, 1);
}
pub fn md_links() {
    links(false, 1);
}
pub fn html_links2() {
    links(true, 2);
}
pub fn md_links2() {
    links(false, 2);
}
/// text that reads as markup or as a character reference
fn spelled(html: bool) {
    const WORDS: [&str; 22] = [
        "&quot;", "&amp;", "&lt;", "&gt;", "&#39;", "&#x41;", "&nbsp;", "<b>", "</p>", "<!--", "**", "__", "~~", "``",
        "](", "![", "\\\\", "\\*", "1.", "http://x.y", "<br>", "&copy",
    ];
    let k = sx::pick(WORDS.len());
    let at = sx::pick(3);
    let w = WORDS[k];
    let t = match at {
        0 => format!("a{w}b"),
        1 => format!("a {w} b"),
        _ => format!("a{w}"),
    };
    let d = plain_doc(&["xy", &t, "zz"].join("\n"));
    if sx::flag() {
        let n = t.chars().count();
        sel(&d, 3, 3 + n).merge_char_format(&some_format(0)).unwrap();
    }
    round(&d, html);
}
pub fn html_spelled() {
    spelled(true);
}
pub fn md_spelled() {
    spelled(false);
}
/// tables with merged cells
pub fn html_spans() {
    let d = plain_doc("xy\nzz");
    let tb = d.cursor_at(2).insert_table(3, 3).unwrap();
    let mut n = b'A';
    for r in 0..3 {
        for k in 0..3 {
            let b = tb.cell(r, k).unwrap().blocks();
            let s = (n as char).to_string();
            d.cursor_at(b[0].position()).insert_text(&s).unwrap();
            n += 1;
        }
    }
    for _ in 0..2 {
        let (r, k) = (sx::pick(3), sx::pick(3));
        let (r2, k2) = (sx::range(r, 2), sx::range(k, 2));
        let Some(x) = tb.cell(r, k) else { continue };
        let c = d.cursor_at(x.blocks()[0].position());
        let _ = c.merge_table_cells(tb.id(), r, k, r2, k2);
    }
    let spans = |d: &TextDocument| {
        let mut v = vec![];
        for e in &d.snapshot_flow().elements {
            if let FlowElementSnapshot::Table(t) = e {
                v.push((t.rows, t.columns, 0, 0, String::new()));
                for c in &t.cells {
                    v.push((c.row, c.column, c.row_span, c.column_span, c.blocks.iter().map(|b| b.text.clone()).collect()));
                }
            }
        }
        v.sort();
        v
    };
    let t = export(&d, true);
    let e = load(true, &t);
    coherent(&e);
    sx::check(spans(&d) == spans(&e), "HTML: another table comes back");
    observe_doc(&e);
}
/// code: the text of a code block, whatever it holds
fn code(html: bool) {
    let mut t = String::from("A");
    for _ in 0..3 {
        t.push_str(["b", "\n", "```", "~~~", "  ", "<"][sx::pick(6)]);
    }
    t.push('Z');
    let d = match sx::pick(2) {
        0 => load(true, "<p>xy</p><pre><code>k</code></pre><p>zz</p>"),
        _ => load(true, "<p>xy</p><blockquote><p>u</p><pre><code>k</code></pre></blockquote><p>zz</p>"),
    };
    let p = d.blocks().iter().find(|b| b.text() == "k").unwrap().position();
    sel(&d, p, p + 1).insert_text(&t).unwrap();
    round(&d, html);
}
pub fn html_code() {
    code(true);
}
pub fn md_code() {
    code(false);
}
/// every letter of a document stands once in an export, in flow order
fn once(d: &TextDocument, t: &str, what: &str) {
    let mut want = vec![];
    for p in paras(d, true) {
        for (c, _) in p.t {
            if c.is_uppercase() {
                want.push(c);
            }
        }
    }
    let got: Vec<char> = t.chars().filter(|c| c.is_uppercase()).collect();
    let mut m = String::from(what);
    m.push_str(": a paragraph is missing, out of order or exported twice");
    sx::check(got == want, &m);
}
fn structures(kind: usize) -> TextDocument {
    match kind {
        0 => plain_doc("AB\nCD\n\nEF"),
        1 => {
            let d = plain_doc("AB\nCD\nEF\nGH");
            sel(&d, 0, 7).create_list(ListStyle::Decimal).unwrap();
            d
        }
        2 => {
            let d = plain_doc("AB\nCD");
            let t = d.cursor_at(sx::pick(6)).insert_table(2, 2).unwrap();
            for (r, k, s) in [(0, 0, "P"), (0, 1, "Q"), (1, 0, "R"), (1, 1, "S")] {
                let b = t.cell(r, k).unwrap().blocks();
                d.cursor_at(b[0].position()).insert_text(s).unwrap();
            }
            d
        }
        3 => {
            let d = plain_doc("AB\nCD");
            d.cursor_at(sx::pick(6)).insert_frame().unwrap();
            let fl = d.snapshot_flow();
            for e in &fl.elements {
                if let FlowElementSnapshot::Frame(f) = e {
                    let mut v = vec![];
                    flat(&f.elements, &mut v);
                    d.cursor_at(v[0].position).insert_text("Z").unwrap();
                }
            }
            d
        }
        4 => load(true, "<p>A</p><blockquote><p>B</p><ul><li>C</li></ul><blockquote><p>D</p></blockquote></blockquote><table><tr><td>E</td><td>F</td></tr></table><h2>G</h2>"),
        _ => load(false, "# A\n\n> B\n>\n> - C\n\n1. D\n2. E\n\n|F|G|\n|-|-|\n|H|I|\n\n```\nJ\n```\n"),
    }
}
fn structure(kinds: &[usize]) {
    let k = kinds[sx::pick(kinds.len())];
    let d = structures(k);
    d.clear_undo_redo();
    // one edit, anywhere
    if sx::flag() {
        let n = end_of(&d);
        let p = sx::range(0, n);
        match sx::pick(3) {
            0 => d.cursor_at(p).insert_block().is_ok(),
            1 => d.cursor_at(p).insert_text("X").is_ok(),
            _ => d.cursor_at(p).delete_char().is_ok(),
        };
    }
    sx::reach(k as u64);
    let before = state(&d);
    once(&d, &export(&d, true), "HTML");
    once(&d, &export(&d, false), "Markdown");
    once(&d, &d.to_latex("article", false).unwrap_or_default(), "LaTeX");
    check_same(&before, &state(&d), "exporting changes the document");
}
/// what a document is made of comes back
fn shapes(html: bool) {
    let k = sx::pick(6);
    let d = structures(k);
    if html || k != 3 {
        sx::reach(k as u64);
        round(&d, html);
    }
}
pub fn html_shapes() {
    shapes(true);
}
pub fn md_shapes() {
    shapes(false);
}
pub fn structure_flat() {
    structure(&[0, 1]);
}
pub fn structure_tab() {
    structure(&[2]);
}
pub fn structure_frame() {
    structure(&[3]);
}
pub fn structure_mixed() {
    structure(&[4, 5]);
}
/// LaTeX: reading the escapes back gives the text
pub fn latex() {
    let d = text_doc(2, false);
    let t = d.to_latex("article", false).unwrap_or_default();
    let ps: Vec<String> = d.blocks().iter().map(|b| b.text()).collect();
    let want = ps.join("\n\n");
    let mut got = String::new();
    let mut r = t.as_str();
    while let Some(c) = r.chars().next() {
        let mut n = c.len_utf8();
        if c == '\\' {
            let mut hit = false;
            for (w, k) in [("\\textbackslash{}", '\\'), ("\\textasciitilde{}", '~'), ("\\textasciicircum{}", '^')] {
                if r.starts_with(w) {
                    got.push(k);
                    n = w.len();
                    hit = true;
                }
            }
            if !hit {
                let k = r[1..].chars().next().unwrap_or(' ');
                sx::check("&%$#_{}".contains(k), "LaTeX: an unknown command is exported");
                got.push(k);
                n = 2;
            }
        } else {
            sx::check(!"&%$#_{}~^".contains(c), "LaTeX: a special character is exported raw");
            got.push(c);
        }
        r = &r[n..];
    }
    sx::check(got == want, "LaTeX: another text is exported");
}
/// an import replaces the whole document
fn replace(kinds: &[usize], ops: usize) {
    let k = kinds[sx::pick(kinds.len())];
    let d = build(k);
    for _ in 0..ops {
        let n = end_of(&d);
        let c = d.cursor_at(sx::range(0, n));
        let op = pick_op();
        apply(op, &d, &c);
    }
    let how = sx::pick(5);
    let imp = |d: &TextDocument| match how {
        0 => sx::check(d.set_plain_text("one\n\ntwo").is_ok(), "set_plain_text fails"),
        1 => sx::check(d.clear().is_ok(), "clear fails"),
        2 => load_into(d, true, "<h1>A</h1><ul><li>b</li></ul><table><tr><td>c</td></tr></table><p>d</p>"),
        3 => load_into(d, false, "# A\n\n- b\n\n> q\n\n|c|d|\n|-|-|\n|e|f|\n"),
        _ => load_into(d, true, ""),
    };
    // the text is read before, and once more while the import may be running
    let _ = plain(&d);
    imp(&d);
    let fresh = TextDocument::new();
    imp(&fresh);
    sx::reach(how as u64);
    coherent(&d);
    check_same(&canon(&state(&fresh)), &canon(&state(&d)), "an import leaves something of the old document");
    sx::check(!d.can_undo() && !d.can_redo(), "an import keeps the undo history");
    let s = state(&d);
    let _ = d.undo();
    check_same(&s, &state(&d), "undo brings back an imported document");
    // and it can be edited
    d.cursor_at(0).insert_text("N").unwrap();
    sx::check(plain(&d).contains('N'), "a text typed after an import is lost");
    coherent(&d);
    d.undo().unwrap();
    check_same(&s, &state(&d), "undoing after an import");
}
pub fn replace_any() {
    replace(&[0, 1, 2, 3, 4, 5, 6], 0);
}
pub fn replace_op() {
    replace(&[0, 3, 5], 1);
}
/// sequences of pieces of HTML and Markdown: the document that comes out is
/// whole, and every letter is in it, in order
const HTML: [&str; 15] = ["<table><tr><td rowspan=2>P</td><td>Q</td></tr><tr><td>R</td></tr><tr><td colspan=3>S</td></tr></table>", "<p>A</p>", "B", "<table><tr><td>C</td></tr><tr><td>D</td><td>E</td></tr></table>", "<ul><li>F<ol><li>G</li></ol></li><li>H</li></ul>", "<blockquote>", "</blockquote>", "<br>", "<h2>I<b>J</b></h2>", "<pre><code class=\"language-r\">K\nL</code></pre>", "<table></table>", "<td>M</td>", "<p>", "<a href=\"u\">N</a>", "</p></div>"];
const MD: [&str; 12] = ["A\n\n", "- B\n", "  1. C\n", "> D\n", "\n", "\n|E|F|\n|-|-|\n|G|\n\n", "```r\nH\n", "```\n", "# I\n", "**J", "** K `L`\n", "    M\n"];
fn tokens(html: bool, n: usize) {
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(if html { HTML[sx::pick(HTML.len())] } else { MD[sx::pick(MD.len())] });
    }
    if cfg!(feature = "dbg") {
        sx::note(&t);
    }
    let d = load(html, &t);
    coherent(&d);
    let want: Vec<char> = t.chars().filter(|c| c.is_uppercase()).collect();
    let mut got = vec![];
    for p in paras(&d, true) {
        for (c, _) in p.t {
            if c.is_uppercase() {
                got.push(c);
            }
        }
    }
    sx::check(got == want, if html { "HTML: letters are lost or out of order" } else { "Markdown: letters are lost or out of order" });
    once(&d, &export(&d, true), "HTML");
    once(&d, &export(&d, false), "Markdown");
    once(&d, &d.to_latex("article", false).unwrap_or_default(), "LaTeX");
    // the fragment of it is inserted whole
    let e = plain_doc("z");
    let f = if html { DocumentFragment::from_html(&t) } else { DocumentFragment::from_markdown(&t) };
    if e.cursor_at(1).insert_fragment(&f).is_ok() {
        coherent(&e);
    }
    observe_doc(&d);
}
pub fn html_tokens2() {
    tokens(true, 2);
}
pub fn html_tokens3() {
    tokens(true, 3);
}
pub fn md_tokens2() {
    tokens(false, 2);
}
pub fn md_tokens3() {
    tokens(false, 3);
}
