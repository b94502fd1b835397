mod c_cursor;
mod c_fmt;
mod c_frag;
mod c_event;
mod c_hist;
mod c_io;
mod c_long;
mod c_scope;
mod c_search;
mod c_table;
mod c_text;
mod c_undo;
mod c_views;
mod docs;
mod ops;
mod sx;
mod util;
use text_document::TextDocument;

fn t0() {
    let doc = TextDocument::new();
    doc.set_plain_text("Hello\nworld").unwrap();
    let c = doc.cursor();
    let p = sx::sym(0, 11) as usize;
    c.set_position(p, text_document::MoveMode::MoveAnchor);
    c.insert_text("abc").unwrap();
    let t = doc.to_plain_text().unwrap();
    sx::observe_str(&t);
    sx::check(&t[p..p + 3] == "abc", "inserted text");
    sx::check(t.len() == 14, "length");
    doc.undo().unwrap();
    sx::check(doc.to_plain_text().unwrap() == "Hello\nworld", "undo");
}

static TABLE: &[(&str, fn())] = &[("t0", t0), ("edit_flat", c_text::edit_flat),("edit_stale", c_text::edit_stale),("edit_struct", c_text::edit_struct),("edit_full", c_text::edit_full),("edit_across", c_text::edit_across),("edit_across_full", c_text::edit_across_full),("edit_two", c_text::edit_two),("edit_long", c_text::edit_long),("set_plain", c_text::set_plain),("ins_newline", c_text::ins_newline),
    ("view_op_flat", c_views::op_flat),("view_op_struct", c_views::op_struct),("view_op_full", c_views::op_full),("view_two", c_views::two),("view_at", c_views::at),("view_frame_in_cell", c_views::frame_in_cell),
    ("cur_words_far", c_cursor::words_far),("cur_others_flat", c_cursor::others_flat),("cur_others_struct", c_cursor::others_struct),("cur_others_full", c_cursor::others_full),("cur_turns", c_cursor::turns),("cur_moves", c_cursor::moves),("cur_queries", c_cursor::queries),("cur_words", c_cursor::words),("cur_delete", c_cursor::delete_cluster),
    ("hist_typing2", c_hist::typing2),("hist_typing3", c_hist::typing3),("hist_typing3_full", c_hist::typing3_full),("hist_typing_limit", c_hist::typing_limit),("hist_deleting", c_hist::deleting),("hist_mixed", c_hist::mixed),("hist_edit_block", c_hist::edit_block),("hist_branch", c_hist::branch),("hist_branch_merge", c_hist::branch_merge),("hist_clear", c_hist::clear),
    ("fmt_range_flat", c_fmt::range_flat),("fmt_range_stale", c_fmt::range_stale),("fmt_range_struct", c_fmt::range_struct),("fmt_range_full", c_fmt::range_full),("fmt_two", c_fmt::two),("fmt_three", c_fmt::three),("fmt_kernel_splice", c_fmt::kernel_splice),("fmt_kernel_insert", c_fmt::kernel_insert),("fmt_kernel_delete", c_fmt::kernel_delete),("fmt_kernel_split", c_fmt::kernel_split),("fmt_kernel_wide", c_fmt::kernel_wide),("fmt_kernel_three", c_fmt::kernel_three),("fmt_travel_flat", c_fmt::travel_flat),("fmt_travel_struct", c_fmt::travel_struct),("fmt_travel_full", c_fmt::travel_full),("fmt_travel_two", c_fmt::travel_two),
    ("sc_block_flat", c_scope::block_flat),("sc_block_stale", c_scope::block_stale),("sc_block_struct", c_scope::block_struct),("sc_block_full", c_scope::block_full),("sc_objects", c_scope::objects),("sc_block_travel", c_scope::block_travel),("sc_block_travel2", c_scope::block_travel2),("sc_list_flat", c_scope::list_flat),("sc_list_struct", c_scope::list_struct),("sc_list_full", c_scope::list_full),("sc_list_two", c_scope::list_two),("sc_list_markers", c_scope::list_markers),
    ("se_find", c_search::find),("se_find_full", c_search::find_full),("se_find_case", c_search::find_case),("se_find_words", c_search::find_words),("se_regex", c_search::regexes),("se_regex_full", c_search::regexes_full),("se_bad_regex", c_search::bad_regex),("se_replace", c_search::replace_flat),("se_replace_struct", c_search::replace_struct),("se_replace_struct_full", c_search::replace_struct_full),("se_replace_opts", c_search::replace_opts),
    ("tb_plain", c_table::ops_plain),("tb_merged", c_table::ops_merged),("tb_caret", c_table::ops_merged_caret),("tb_full", c_table::ops_full),("tb_two", c_table::two),("tb_three", c_table::three),("tb_whole", c_table::whole),("tb_sel", c_table::selections),("tb_foreign", c_table::foreign),("tb_whole_foreign", c_table::whole_foreign),
    ("fr_looks", c_frag::looks),("fr_flat", c_frag::flat_same),("fr_rich", c_frag::flat_rich),("fr_full", c_frag::flat_full),("fr_across", c_frag::across),("fr_tab_text", c_frag::tab_text),("fr_tab_cells", c_frag::tab_cells),("fr_tab_full", c_frag::tab_full),("fr_doc", c_frag::whole_doc),("fr_over", c_frag::over_flat),("fr_over_full", c_frag::over_full),("fr_across_full", c_frag::across_full),
    ("io_html_text1", c_io::html_text1),("io_html_edge1", c_io::html_edge1),("io_html_text2", c_io::html_text2),("io_html_edge2", c_io::html_edge2),("io_html_text3", c_io::html_text3),("io_md_text2", c_io::md_text2),("io_md_edge1", c_io::md_edge1),("io_md_edge2", c_io::md_edge2),("io_md_text3", c_io::md_text3),("io_html_formats", c_io::html_formats),("io_md_formats", c_io::md_formats),("io_html_formats2", c_io::html_formats2),("io_html_looks", c_io::html_looks),("io_md_looks", c_io::md_looks),("io_html_kinds", c_io::html_kinds),("io_md_kinds", c_io::md_kinds),("io_html_places", c_io::html_places),("io_md_places", c_io::md_places),("io_html_places_edge", c_io::html_places_edge),("io_md_places_edge", c_io::md_places_edge),("io_html_spans", c_io::html_spans),("io_html_code", c_io::html_code),("io_md_code", c_io::md_code),("io_html_links", c_io::html_links),("io_md_links", c_io::md_links),("io_html_links2", c_io::html_links2),("io_md_links2", c_io::md_links2),("io_html_spelled", c_io::html_spelled),("io_md_spelled", c_io::md_spelled),("io_html_shapes", c_io::html_shapes),("io_md_shapes", c_io::md_shapes),("io_structure_flat", c_io::structure_flat),("io_structure_tab", c_io::structure_tab),("io_structure_frame", c_io::structure_frame),("io_structure_mixed", c_io::structure_mixed),("io_latex", c_io::latex),("io_replace_any", c_io::replace_any),("io_replace_op", c_io::replace_op),("io_html_tokens2", c_io::html_tokens2),("io_html_tokens3", c_io::html_tokens3),("io_md_tokens2", c_io::md_tokens2),("io_md_tokens3", c_io::md_tokens3),
    ("ev_flat", c_event::flat_docs),("ev_struct", c_event::structured),("ev_two", c_event::two),
    ("lo_html", c_long::html),("lo_md", c_long::markdown),("lo_html_full", c_long::html_full),("lo_md_full", c_long::markdown_full),
    ("probe",ops::probe),("probe2",ops::probe2),("probe3",ops::probe3),("probe5",ops::probe5),("probe6",ops::probe6),("probe0",ops::probe0),
    ("undo_op_text", c_undo::op_text), ("undo_op_struct", c_undo::op_struct), ("undo_op_full", c_undo::op_full), ("undo_hist_plain", c_undo::hist_plain), ("undo_hist_table", c_undo::hist_table), ("undo_hist_plain3", c_undo::hist_plain3), ("undo_hist_all2", c_undo::hist_all2)];

#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn sx_run(i: u64) {
    TABLE[i as usize].1();
}

fn main() {
    // sxh list | sxh replay IDX [-v] v v v | sxh batch FILE
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (i, t) in TABLE.iter().enumerate() {
                println!("{i} {}", t.0);
            }
        }
        Some("replay") => {
            let i: u64 = a[2].parse().unwrap();
            let v: Vec<u64> = a[3..].iter().filter_map(|x| x.parse().ok()).collect();
            let verbose = a.iter().any(|x| x == "-v") as i32;
            let d = sx::native_run2(i, &v, verbose);
            println!("REPLAY-OK {d:016x}");
        }
        _ => {
            sx_run(a.len() as u64);
        }
    }
}
