//! C18: an import that runs in its own thread ends, as a whole or not at all.
use crate::c_io::load;
use crate::docs::*;
use crate::ops::*;
use crate::sx;
use crate::util::*;
use common::long_operation::PROGRESS_HOOK;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// the report at which the import is held up
static AT: AtomicUsize = AtomicUsize::new(usize::MAX);
static SEEN: AtomicUsize = AtomicUsize::new(0);
/// 0: on its way, 1: held up, 2: let go
static HELD: AtomicUsize = AtomicUsize::new(0);
static REPORTS: Mutex<Vec<f32>> = Mutex::new(vec![]);

fn report(p: f32) {
    REPORTS.lock().unwrap().push(p);
    if SEEN.fetch_add(1, SeqCst) == AT.load(SeqCst) {
        HELD.store(1, SeqCst);
        while HELD.load(SeqCst) != 2 {
            std::thread::yield_now();
        }
    }
}

const TEXTS: [[&str; 3]; 2] = [
    ["# N\n\n- a\n- b\n", "> q\n\n|E|F|\n|-|-|\n|**g**|h|\n\nr", ""],
    ["<h1>N</h1><ul><li>a</li><li>b</li></ul>", "<blockquote>q</blockquote><table><tr><td><b>g</b></td><td>h</td></tr></table><p>r</p>", ""],
];

fn import(html: bool, kinds: &[usize], twice: bool) {
    let kind = kinds[sx::pick(kinds.len())];
    let d = build(kind);
    if sx::flag() {
        // positions and text of the old document are still pending
        d.cursor_at(1.min(end_of(&d))).insert_text("w").unwrap();
    }
    let before = state(&d);
    let text = TEXTS[html as usize][sx::pick(3)];
    let at = sx::range(0, 9);
    let act = sx::pick(4);
    AT.store(at, SeqCst);
    *PROGRESS_HOOK.lock().unwrap() = Some(report);
    let _ = d.poll_events();
    // (result, id, the number of blocks it tells)
    let start = |t: &str| -> Box<dyn Task> {
        if html {
            match d.set_html(t) {
                Ok(o) => Box::new(o),
                Err(_) => sx::fail("an import does not start"),
            }
        } else {
            match d.set_markdown(t) {
                Ok(o) => Box::new(o),
                Err(_) => sx::fail("an import does not start"),
            }
        }
    };
    let mut op = start(text);
    let id = op.name();
    while HELD.load(SeqCst) == 0 && !op.done() {
        std::thread::yield_now();
    }
    let held = HELD.load(SeqCst) == 1;
    let mut early = false;
    let mut cancelled = false;
    if held {
        sx::reach(1);
        sx::check(!op.done(), "an import is done before its end");
        sx::check(op.try_it().is_none(), "an import has a result before its end");
        let (p, _) = match op.how_far() {
            Some(x) => x,
            None => sx::fail("no progress is known of a running import"),
        };
        sx::check((0.0..=100.0).contains(&p), "the progress is not between 0 and 100");
        if act & 1 == 1 {
            // reading meanwhile leaves nothing behind
            let _ = d.to_plain_text();
            let _ = d.stats();
            let _ = d.snapshot_flow();
        }
        if act >= 2 {
            cancelled = true;
            early = at < 3;
            op.stop();
        }
        HELD.store(2, SeqCst);
    } else {
        // it ended before the report came
        sx::assume(act == 0 && at == 9);
    }
    let r = op.end();
    *PROGRESS_HOOK.lock().unwrap() = None;
    sx::observe(r.is_some() as u64 | (SEEN.load(SeqCst) as u64) << 8);
    let after = state(&d);
    match r {
        Some(n) => {
            sx::reach(2);
            sx::check(!early, "a cancelled import went on to the end");
            let e = load(html, text);
            check_same(&canon(&after), &canon(&state(&e)), "an import");
            sx::check(n == after.stats.block_count || text.is_empty(), "the result tells another number of blocks");
            sx::check(!d.can_undo() && !d.can_redo(), "an import can be undone");
        }
        None => {
            sx::reach(3);
            sx::check(cancelled, "an import failed that nobody cancelled");
            check_same(&after, &before, "a cancelled import");
        }
    }
    coherent(&d);
    // the listeners are told
    let mut done = false;
    let mut last = 0.0;
    for _ in 0..2000 {
        for e in d.poll_events() {
            match e {
                DocumentEvent::LongOperationFinished { operation_id, success, .. } if operation_id == id => {
                    sx::check(!(success && r.is_none()), "success is told of a cancelled import");
                    sx::check(success || cancelled, "a failure is told of an import that succeeded");
                    done |= success == r.is_some();
                }
                DocumentEvent::LongOperationProgress { operation_id, percent, .. } if operation_id == id => {
                    sx::check(percent >= last && percent <= 100.0, "the progress goes back");
                    last = percent;
                }
                _ => {}
            }
        }
        if done {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    sx::check(done, "nobody is told of the end of an import");
    // and the document can be worked with
    let p = sx::pick(2) * end_of(&d);
    d.cursor_at(p).insert_text("z").unwrap();
    coherent(&d);
    d.undo().unwrap();
    check_same(&canon(&state(&d)), &canon(&after), "undo of an edit after an import");
    if twice {
        let text = TEXTS[html as usize][sx::pick(3)];
        let n = start(text).end();
        sx::check(n.is_some(), "an import after another fails");
        check_same(&canon(&state(&d)), &canon(&state(&load(html, text))), "an import after another");
    }
}

trait Task {
    fn name(&self) -> String;
    fn done(&self) -> bool;
    fn try_it(&mut self) -> Option<()>;
    fn how_far(&self) -> Option<(f64, String)>;
    fn stop(&self);
    fn end(self: Box<Self>) -> Option<usize>;
}
macro_rules! task {
    ($t:ty) => {
        impl Task for Operation<$t> {
            fn name(&self) -> String {
                self.id().to_string()
            }
            fn done(&self) -> bool {
                self.is_done()
            }
            fn try_it(&mut self) -> Option<()> {
                self.try_result().map(|_| ())
            }
            fn how_far(&self) -> Option<(f64, String)> {
                self.progress()
            }
            fn stop(&self) {
                self.cancel()
            }
            fn end(self: Box<Self>) -> Option<usize> {
                self.wait().ok().map(|r| r.block_count)
            }
        }
    };
}
task!(HtmlImportResult);
task!(MarkdownImportResult);

pub fn html() {
    import(true, &[0, 3, 5, 6], false);
}
pub fn markdown() {
    import(false, &[0, 3, 5, 6], false);
}
pub fn html_full() {
    import(true, &[0, 1, 3, 4, 5, 6], true);
}
pub fn markdown_full() {
    import(false, &[0, 1, 3, 4, 5, 6], true);
}
