#!/usr/bin/env python3
"""writes DESIGN.md from props.py, known_findings.txt, seeded/ and the text below"""
import glob, json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE

HEAD = """# Solver-based checking of text-document

(generated by `python3 design.py`; edit design.py and props.py)

## Method

Every claimed property is decided the same way: bounded symbolic execution of the real code.

1. `check.py ID` rebuilds the *harness* crate (`harness/`, path dependencies on /repo/crates/public_api and
   /repo/crates/common) from /repo's current tree with `rustc --emit=llvm-ir,link`, fat LTO, opt-level 1. The
   result is one LLVM IR module that holds the whole program: public API, commands, use cases, units of work, the
   rope store, undo stacks, ropey, regex, html5ever, pulldown-cmark, std's collections, and the harness. The same
   build produces a native binary. Overflow checks and debug assertions are on in the repository crates.
2. `engine/` (symex, written for this task, about 6500 lines of Rust, linked to libz3) executes that IR. Harness inputs
   are symbolic bit-vectors; memory is byte-exact with symbolic bytes; a branch on a symbolic condition asks Z3 which
   sides are feasible and forks the process; an address, length or switch value that is symbolic is enumerated through
   Z3 (every value, closed with an UNSAT answer). A path ends at the end of the harness, at a false assertion, a panic,
   an overflow, an out-of-bounds or use-after-free access, or at the instruction budget (reported, never silently
   dropped). There is no loop unrolling bound: loops run until the program leaves them.
3. `sx::check(cond, msg)` is the property: Z3 is asked whether `not cond` is satisfiable under the path condition. SAT
   gives concrete inputs for all symbolic variables; they are replayed in the native binary, and only a replay that
   fails there too is reported: `VIOLATION property=.. replay=..` (replay with `python3 check.py --replay FILE`). UNSAT on
   every path, with every fork side explored, is the verdict that the property holds for every value within the bounds.
4. Each run validates itself: a sample of the explored paths is replayed natively and the digests of everything the
   harness observed must be equal (`traces_validated_against_impl`); a sample of the Z3 queries is decided again by cvc5
   and by a newer Z3; harness labels (`sx::reach`) that a property requires must have been reached (vacuity). Any of
   these failing ends the check with CHECK-ERROR (exit 2), never with a verdict.

What is decided by forking and what by formulas. Structure (document shape, which operation, caret and anchor, small
counts) comes from `sx::pick/range`, a symbolic variable that is immediately split into its feasible values; contents
(letters, format values, numbers, pauses, query characters) stay symbolic through the whole execution and are decided by
the solver per path. Equal queries are cached, and trivially decided ones (interval and known-bits domains) are
answered without Z3; a sample of those is confirmed by Z3 (`domain_decided_unsat_confirmed`). Queries that Z3 leaves open for too long go to a
bit-blasting tactic and then to cvc5; an undecided branch ends the run with an error.

Environment: `clock_gettime` is a stub whose monotonic time the harness advances (by a symbolic number of seconds where
time matters), `getrandom` returns fixed bytes (hash seeds), `malloc` does not fail, locks are executed as the real
parking_lot code (uncontended fast path). No environment variable, file or network access is reachable from the
checked API.

Oracles are independent reference models in the harness (a character list for text, a list of (char, format) pairs
for formats, a grid of cells for tables, a stack of states for history, naive matchers for search) or the relation
itself (views agree; state after undo = state before).

Checks compare observable behaviour only through the public API. They do not read source text, function names or
internal structure, so refactorings do not disturb them. Harness names, in order of the tables below, are listed
in `harness/src/main.rs`.

## Scope and strength

All levels are "model_checking" (bounded). Cost: building the harness takes about 40 s (done once per check when /repo or
/verif changed), each quick check 10-130 s of exploration on 8 cores, thorough checks up to 13 minutes. Bounds are stated per property below and in
the evidence; documents are small (up to about 12 characters, 5 blocks, 3x3 cells) because the structures are handled
uniformly above that size, except where the code has thresholds, for which there are dedicated harnesses (the
200-character merge limit, `edit_long` with about 70 blocks for the offset index, words and gaps of up to 75 characters in word moves).

"""

HOW = {
    "C01": "Oracle: the recorded observable state (flow snapshot with all formats, ids, lists, tables, frames; plain text; statistics; block ids and positions) after each step. Every operation at every caret is executed, undone (must equal the state before), redone (must equal the state after, up to a renumbering of fresh ids in order of appearance), undone again. Histories of 2-3 operations are walked back and forth completely. Reaches command objects whose snapshot misses a part only for one shape or position, which sampling tests do not hit.",
    "C02": "Oracle: a model of the undo stack (which keystrokes belong to one group) that follows the merge rules; time between keystrokes is a symbolic number of seconds, so the exact boundary is decided by the solver; text after every undo is compared with the model's stack of texts.",
    "C03": "Oracle: splice of a character vector. Carets, selections and inserted characters are symbolic; documents include pending (unsynced) positions, multi-byte characters, tables and frames.",
    "C04": "Relation between views: the same block sequence must be seen through the flow snapshot, blocks(), next/previous, text, statistics, fragments, and positional queries, after every operation at every caret.",
    "C05": "Oracle: offset adjustment of every other cursor (before: stays, behind: moves with the text, inside removed text: to its place; at the insertion point moves behind). All pairs of cursors and edits.",
    "C06": "Oracle: independent definitions of each movement over the block list; word movement over symbolic character classes; deletion by grapheme cluster.",
    "C07": "Oracle: a list of (character, format) pairs per block; set replaces, merge fills the given fields. Additionally the run-vector kernels (crates/common/src/format_runs.rs) are checked with symbolic boundaries and offsets.",
    "C08": "Oracle: the same pair list, spliced: inserted characters inherit the format of the character before the caret (at a block start: of the one after), splits and joins move pairs.",
    "C09": "Oracle: naive search over the character vector with an independent fold and word-boundary table; hand-written matchers for the regular expressions; replacement as splice on the pair list.",
    "C10": "Oracle: a grid of cells (origin, spans, texts) on which each operation is defined directly; columns are rows of the transposed grid. Tiling is checked cell by cell.",
    "C11": "Oracle: documents as lists of (character, format) with paragraph formats; the copied piece is cut from that list, and the pasted document is the list with the piece spliced in, merged at inline ends; tables are compared as values (grid, spans, cell paragraphs). The number of line breaks around pasted tables is left open by one.",
    "C12": "Oracle: the list of paragraphs (characters with looks, heading, list kind, code, quote depth, table cell) read from snapshot_flow before the export and after the import; for imports of arbitrary pieces, the sequence of capital letters in the source; for leftovers, a fresh document given the same import. LaTeX is read back by a small unescaper.",
    "C14": "Oracle: a listener's mirror of the document (characters with formats, paragraph formats and lists, flow elements, block count, flags) updated by nothing but the events; every part of the mirror that no event marked as changed must equal the document.",
    "C16": "Oracle: list membership per block; index = rank among the list's blocks, markers rendered independently.",
    "C17": "Oracle: the flow snapshot before, with exactly the given fields of exactly the touched blocks (or the one object) replaced, must equal the flow snapshot after.",
    "C18": "The import thread is held at a symbolic progress report through the hook (cfg sx_hooks, see MANIFEST hooks) while the main thread queries, reads or cancels; the outcome is compared with the same import into a fresh document or with the state before. Threads are executed by the engine as coroutines, natively (replay) as threads; the hook makes both take the same schedule.",
}
TAIL = """
## False alarms corrected on the way

- Cursor position at the end of a block: `block_at` deliberately answers with the next block; the oracle follows.
- `insert_text` with a line break keeps it inside the block (existing behaviour, tests rely on it); plain-text fragments
  and set_plain_text split. The splice property is on the text, where both agree.
- Operations that do nothing (replace_text without a match, empty insertion, formatting without a selection) still push an undo step; the
  property asks only that undoing gives the state before.
- Redo creates entities anew; "exactly" in C01 is therefore up to fresh ids, numbered by appearance.
- `to_plain_text` groups blocks by frame when there are tables or sub-frames; the oracle compares lines, not their order.
- find_all keeps overlapping matches out, find (single) sees them: stated so in C09.

## Limits of this framework

- Documents with inline images are outside C01/C04/C05/C08: many operations mis-handle the image anchors (undo of edits next to images
  moves them, redo recreates them elsewhere); it is one deep defect of the anchor bookkeeping and is not repaired here.
- The engine executes one thread; schedules are explored only where a property says so.
- Loops are never cut, but documents are small; bounds are listed above per property.
"""


def main():
    o = [HEAD, "## Properties and how each is decided\n"]
    for pid, p in sorted(PROPS.items()):
        o.append("### %s %s\n" % (pid, p["title"]))
        o.append(p["statement"] + "\n")
        o.append("- How: " + HOW.get(pid, p.get("how", "")))
        o.append("- Bounds: " + p["bounds"] + ". Outside them nothing is claimed.")
        o.append("- Quick harnesses: " + ", ".join(p["quick"]) + ("; thorough adds " + ", ".join(p["thorough"]) if p.get("thorough") else ""))
        o.append("- Why tests cannot: " + p["why"] + "\n")
    if NOT_APPLICABLE:
        o.append("## Properties not claimed\n")
        for d in NOT_APPLICABLE:
            o.append("- %s (%s): %s" % (d["property"], d["rec"]["title"], d["reason"]))
        o.append("")
    o.append("## Defects found\n\nRepaired in /repo (`fix:` commits):\n")
    fs = []
    for l in open(os.path.join(V, "known_findings.txt")):
        l = l.strip()
        if l.startswith("fixed: "):
            o.append("- " + l[7:])
        elif l.startswith("finding: "):
            fs.append(json.loads(l[9:]))
    o.append("\nRecorded, not repaired (known_findings.txt; each is replayed natively in every run and printed as KNOWN-FINDING):\n")
    for d in fs:
        o.append("- %s %s: %s" % (d["id"], d["property"], d["what"]))
    o.append("\nF01-F12 share one cause: commands keep the ids of the entities they work on, and redoing the step that created those\nentities gives them fresh ids (the store never reuses ids on purpose), so the redo of a later step does not find them.\nA repair has to translate ids through the redo stack, which is not a small change.\n")
    o.append("## Planted bugs and what catches them\n\n(each under seeded/; result of the property's quick check with the patch applied)\n")
    res = {}
    p = os.path.join(V, "seed_results.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                k, v = l.strip().split(" ", 1)
                res[k] = v
    o.append("| bug | property | what it breaks | result |\n|---|---|---|---|")
    for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
        d = json.load(open(m))
        k = os.path.basename(os.path.dirname(m))
        o.append("| %s | %s | %s | %s |" % (k, d["property"], d["what_it_breaks"].replace("|", "/"), res.get(k, "not run")))
    o.append(TAIL)
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))


main()
