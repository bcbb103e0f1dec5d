"""level, note, theorems for each claimed property; reasons for those not claimed"""
CLAIMS = {
 'C01': ('proof', 'advance_next32, bxs_from_unicode, bxs_from_ascii, is_csi_reset and count_invisible_chars: all obligations discharged for texts of any length.', []),
 'C02': ('proof', 'Every operation is proved for strings of any length; bxs_concat for up to 8 parts (the program passes 4 or 8), relative to a contract for u32_vsnprintf.', []),
 'C03': ('proof', 'All obligations of horiz_precalc, vert_precalc and isempty discharged for arbitrary shape sizes and text sizes; termination of the search is not claimed (C21). The whole program is run against a reference renderer as a bounded stand-in for the callers.', []),
 'C04': ('proof', 'horiz_assemble, vert_assemble, horiz_generate, vert_generate, generate_box, genshape, highest and widest (for up to five shapes, the number every call passes) are proved for designs and sizes of any value; the whole program is compared with a reference renderer (bounded).', []),
 'C05': ('proof', 'justify_line and output_box (left, centre and right block, indentation, order and completeness of rows) and reading all input are proved; the whole program is compared with a reference renderer (bounded).', []),
 'C06': ('proof', 'expected_min_width/height, adjust_size, the empty-side tests, the course of the program around them and the recording of the padding entries of a design are proved for all sizes and paddings; the effect on the whole program is checked bounded against a reference.', []),
 'C07': ('proof', 'expand_tabs_into and tabbify_indent are proved for texts up to the line limit and all tab distances.', []),
 'C08': ('proof', 'The parsers of the alignment, padding, size, tab, indentation, line-terminator, kill-blank and file arguments are proved for argument texts of any length, relative to a contract for strtol; the option loop is proved for command lines of any length relative to a contract for getopt_long (each argument goes to the setting of its option, each flag has its documented effect and no other, a wrong option refuses the command line), with the defaults, the handlers of -d, -c and -q and the design made for -c; whole command lines through the real getopt_long are compared with a reference reading of the manual (bounded).', []),
 'C09': ('proof', 'The acceptance tests (shape sizes, corners, missing and adjacent elastic shapes), the synthesis of missing shapes and the final minimum dimensions are proved for designs of any shape sizes, and so is the recording of shape lines and of the sample; the grammar around them is checked bounded (whole program with generated design files).', []),
 'C10': ('proof', 'Name and alias lookup, duplicate detection, registration of designs and aliases and the path and copy helpers, the recording of parents and the order of parsing the files are proved for any number of designs and aliases; the whole program with several configuration files is checked bounded.', []),
 'C11': ('proof', 'The decision for one design and the display of the designs of a query and the recording of the tags of a design are proved for any number of tags; parsing the query text (regular expression engine, string splitting) is checked bounded, as is the whole program.', []),
 'C12': ('proof', 'Readability tests, the names looked for in a directory, explicit places, and the search order (with and without user directories) are proved relative to contracts for fopen, stat, opendir and getenv; the whole program is run on scratch directories (bounded).', []),
 'C13': ('proof', 'analyze_input, get_indent and the line analysis are proved for any number of lines, reading all input is proved relative to a contract for the line reader, and trimming is proved for texts of any length; the whole program is checked bounded.', []),
 'C14': ('proof', 'Which lines and which part of each line go away is proved for any number of lines: matching of the vertical sides, shortening, padding, killing blank lines, the extents of top and bottom, the cutting itself, the new statistics and the output, and that a top or bottom line matches the design (match_horiz_line and its recursive backtracking helper hmm), and the two phases of mending. The whole program is checked bounded by removing and mending boxes, whole and damaged.', []),
 'C15': ('proof', 'Colour situation, viability of a comparison, comparison texts, the search for each kind of shape, the sum over the shapes and the choice of the best design are proved for any number of lines and designs, and so is is_blankward; whole-program detection is checked bounded against a reference.', []),
 'C16': ('proof', 'bxs_filter_visible proved for strings of any length; and so are the decision on colours and the choice between filtered and unfiltered output; all emitted strings are checked bounded on the whole program.', []),
 'C17': ('proof', 'apply_substitutions and the recording of rules are proved for any number of lines and rules; the regular expression engine is trusted; the whole program with rules is compared with a reference (bounded).', []),
 'C18': ('proof', 'Order of designs, style entries, tag sorting and counting, escaping, and the recording of keywords and samples are proved; the text of whole listings is checked bounded.', []),
 'C19': ('proof', 'Predicates and text utilities are proved for texts of any length, joining texts for the numbers of parts the program passes.', []),
}
NA = {
 'C20': 'relates two complete program runs (drawing then removing); no function contract within reach expresses it, and removal is heuristic by design',
 'C21': 'the size search has no terminating variant: for accepted designs with parity-incompatible shape sizes it really runs forever, which a deductive verifier can only confirm by failing; termination elsewhere is covered by the bounded runs of the other checks',
}
