"""Anchors: public (or test-used) functions that are specified on their own and stay uninterpreted in callers.

Everything else (private helpers, closures, std combinators) is inlined into its caller, so extracting,
renaming or inlining a helper does not change any table."""
C = "subweight_core::"
P = C + "parse::pallet::"
ANCHORS = {
    C + "term::Term::" + n for n in
    ("eval", "free_vars", "bound_vars", "substitute", "into_chromatic", "simplify", "splice_add",
     "find_largest_factor", "fmt_equation")
} | {
    C + n for n in
    ("compare_commits", "compare_files", "compare_extrinsics", "compare_terms", "extend_scoped_components",
     "filter_changes", "sort_changes", "percent", "sanity_check_term", "git_checkout", "git_pull", "git_reset",
     "Dimension::fmt_value", "Dimension::fmt_scalar")
} | {
    P + n for n in
    ("parse_expression", "parse_scalar_expression", "parse_content", "parse_file", "parse_file_in_repo",
     "parse_files", "parse_files_in_repo", "try_parse_files", "try_parse_files_in_repo", "handle_item",
     "parse_method_call", "parse_scalar_method_call")
} | {C + "parse::read_file", C + "parse::try_parse_file"} | {
    C + "parse::%s::%s" % (m, n) for m in ("storage", "overhead") for n in ("parse_file", "parse_content")
}
