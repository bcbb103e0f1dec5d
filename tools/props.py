#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the single source of the property texts)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': mech, 'where': ', '.join(files)}]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Internal strings account for every character of the text exactly once',
  'For every text without NUL, the internal string holds an exact copy of it, and its bookkeeping is consistent: every character is either visible or part of an escape sequence, the counts add up to the length, the index tables list the visible characters in strictly increasing order and end at the terminator, and no visible character is lost or listed twice. The leading-blank and trailing-blank counts are the true ones (an all-blank text counts as leading only), the ASCII form has one byte per screen column, and a text with an illegal control character is refused as a whole.',
  ['inputs'], 'all UTF-32 texts, including malformed, truncated and nested escape sequences, tabs, zero-width and double-width characters',
  'Unit tests build a few dozen strings with well-formed sequences; the index tables drift only for particular malformed sequences or table growth boundaries.',
  ['src/bxstring.c', 'src/unicode.c'], 'bxs_from_unicode, bxs_from_ascii, bxs_strdup, advance_next32: loop that classifies characters and fills first_char/visible_char',
  'the fields of the string returned by bxs_from_unicode()', [('first_char/visible_char', 'index of the (first invisible before the) i-th visible character')])
p('C02', 'String operations return exactly the requested text, arguments stay intact',
  'Every operation on internal strings (substring, trimmed substring, trim, left/right trim, cutting characters off the front, prepending and appending spaces, concatenation, character search, filtering to visible characters, copy) yields exactly the characters its description names, in order, together with consistent bookkeeping. The argument is unchanged afterwards unless the operation is documented to modify it, no operation reads or writes outside the strings, and out-of-range positions are answered with an empty or absent result, never with foreign memory.',
  ['inputs'], 'all strings (any mix of visible characters and escape sequences) and all positions and counts',
  'Tests call each operation with a handful of literal strings; off-by-one mistakes at the terminator, at escape sequences or at empty ranges are position dependent.',
  ['src/bxstring.c', 'src/unicode.c', 'src/tools.c'], 'bxs_trimdup, bxs_substr, bxs_trim, bxs_ltrim, bxs_rtrim, bxs_cut_front, bxs_prepend_spaces, bxs_append_spaces, bxs_strcat, bxs_concat, bxs_strchr, bxs_filter_visible, bxs_first_char_ptr, u32_nspaces, u32_insert_space_at, u32_strnrstr',
  'return values and arguments of the bxs_* functions')
p('C03', 'Opposite box sides get equal, sufficient length from whole shapes',
  'For every accepted design and every text size, opposite sides of the box are computed to be exactly equally long and at least as long as the text (with padding) and the design minimum require. Each side consists of whole copies only: every shape that exists on the side occurs at least once, a non-elastic shape occurs exactly once, and an absent shape takes no room.',
  ['inputs', 'configurations'], 'all accepted designs (any shape sizes, any elastic pattern) and all text sizes',
  'The tests draw some 40 designs around short texts; an unlucky combination of shape widths, elastic pattern and text width shows up only in designs nobody sampled.',
  ['src/generate.c'], 'horiz_precalc, vert_precalc: search loop that adds copies to the shorter side until both are equal',
  'lengths returned by the size computation, hence the generated box')
p('C04', 'Box sides are assembled from the design shapes line by line without gaps',
  'The generated top and bottom consist, row by row, of corner, whole copies of the side shapes in order, and corner, all rows exactly as wide as the box; the generated left and right sides list the rows of their shapes top to bottom, repeating an elastic shape from its first row. Nothing else is inserted, no row is missing, and the corners appear exactly once each.',
  ['inputs', 'configurations'], 'all accepted designs and all computed side lengths',
  'Tests compare whole outputs for sampled designs and sizes; assembly errors need multi-row shapes, uneven corner sizes or multiple elastic shapes.',
  ['src/generate.c'], 'horiz_assemble, horiz_generate, vert_assemble, vert_generate, horiz_chars_required, generate_box', 'the four assembled side shapes')
p('C05', 'Text inside the box is complete, unchanged and placed as requested',
  'Drawing a box emits every input line exactly once and in order, with its characters unchanged (only leading blanks may change when justification is asked for), surrounded by blank fill so that every output row has the same overall width as the box. Horizontal and vertical alignment place the text block at the left/centre/right and top/centre/bottom of the free space with odd remainders handled consistently, and justification shifts each line individually to the left edge, centre or right edge of the text block.',
  ['inputs', 'configurations'], 'all texts, alignments, justifications, paddings and box sizes',
  'Tests check some 60 fixed combinations on two short texts; widths with odd remainders, indented lines, double-wide or invisible characters multiply beyond that.',
  ['src/generate.c'], 'justify_line, output_box', 'the lines written to the output')
p('C06', 'Requested box size and padding are honoured',
  'A size given on the command line makes the box at least that large, counting only sides that are actually drawn, and takes precedence over padding: padding is reduced, never below zero, alternating between the two opposite sides, until the requested size fits or no padding is left. Padding given on the command line replaces the padding of the design side by side, and without a requested size the box grows to hold the full padding.',
  ['inputs', 'configurations'], 'all requested sizes, paddings (design and command line), text sizes and corner shape sizes',
  'Tests use a few size/padding pairs; the reduction loop depends on parity and on which side runs out of padding first.',
  ['src/boxes.c'], 'apply_expected_size, adjust_size_and_padding', 'design minimum size and padding used for drawing')
p('C07', 'Tab expansion and restoration keep columns exact',
  'Expanding tabs replaces each tab by the spaces that reach the next tab stop (every character counts as one column), keeps every other character in place, and records the position of each tab, for every tab distance. Converting leading spaces back uses exactly the same columns: the restored indentation expands to the original width, in every tab mode.',
  ['inputs'], 'all texts up to the line limit, and all tab distances 1..16',
  'Tests cover tab distance 4 and 8 with ASCII text; drift needs several tabs at particular columns, or lines near the length limit.',
  ['src/tools.c', 'src/generate.c'], 'expand_tabs_into, tabbify_indent', 'expanded text, recorded tab positions, restored indentation')
p('C08', 'Command line options are parsed completely and strictly',
  'Every value of the alignment, padding, size, tabs, indentation, line-terminator and kill-blank options is either accepted with exactly the documented meaning or rejected with an error; nothing is silently ignored or half-applied. Keywords ignore case, indentation modes may be abbreviated, a later part of a value overrides an earlier one for the same setting (except that the first kill-blank setting counts), a single l, c or r of the alignment also centres vertically and sets the justification, numbers outside the documented ranges and trailing characters are rejected, and settings not named keep their previous value. At most one input and one output file are accepted, where - means standard input or output.',
  ['inputs'], 'all argument strings for these options',
  'Tests try one or two good and bad strings per option; malformed combinations (missing parts, trailing characters, overflow) are unbounded.',
  ['src/cmdline.c', 'src/tools.c'], 'alignment, padding, tab_handling, size_of_box, indentation_mode, eol_override, killblank, strisyes, strisno, input_output_files', 'the option structure returned by process_commandline')
p('C09', 'Every accepted design is well-formed',
  'A design definition is accepted only if every shape line of a shape is equally wide, shapes sharing a side have equal extent across it, each side has one or two elastic shapes which are never missing and never adjacent, and corners are not elastic. The stored design has all shapes it needs (missing ones are synthesised as blanks of the right size) and minimum dimensions large enough for every side.',
  ['inputs', 'configurations'], 'all design definitions in configuration files',
  'Tests feed about 40 invalid configurations; the checks quantify over 16 shapes and arbitrary sizes, and later stages loop forever or overrun when one slips through.',
  ['src/parsecode.c', 'src/shape.c'], 'check_sizes, corner_check, non_existent_elastics, insufficient_elasticity, adjoining_elastics, perform_se_check, action_finalize_shapes, genshape, findshape, on_side, highest, widest, isempty, empty_side', 'acceptance or error message; shape table of the design')
p('C10', 'A design is found by name or alias, and duplicates never shadow silently',
  'A design is selected exactly if its name or one of its aliases equals the requested name (ignoring case); names are unique across all configuration files, so that a redefinition is reported or resolved as documented, and the first matching definition wins deterministically. Design names, aliases and tags containing forbidden characters are refused.',
  ['inputs', 'configurations'], 'all sets of designs, names and aliases, across parent configuration files',
  'Tests use one or two small configurations; lookups depend on order, case and aliases of all designs.',
  ['src/parsecode.c', 'src/tools.c'], 'design_name_exists, find_design, select_design, action_add_alias, check_bxsnames, array_contains0, tag_is_valid, bxs_valid_in_filename', 'which design is used')
p('C11', 'The tag query selects exactly the designs its tags describe',
  'A design is selected by a tag query exactly if it carries none of the tags excluded with a minus, all of the tags required with a plus, and, unless some tag is required or the query consists of exclusions only, at least one of the plain tags, where (all) stands for every design. Tags in a query are validated, duplicate tags and queries without any tag are refused, empty entries are skipped, and comparison ignores case.',
  ['inputs', 'configurations'], 'all tag queries and all tag sets',
  'Tests evaluate a few queries against a fixed configuration.',
  ['src/query.c', 'src/tools.c'], 'query_by_tags, filter_by_tag, query_is_undoc, tag_record, array_contains0, array_contains_bxs', 'designs listed or chosen for a query')
p('C12', 'Configuration files are searched in the documented order',
  'The configuration file is the first existing candidate in the documented order: command line, BOXES environment variable, home directory, XDG configuration directories, global file. A file named explicitly (command line or environment) that cannot be used is an error rather than being silently replaced by a later candidate, and a directory is searched for the documented file names only.',
  ['inputs', 'configurations'], 'all combinations of option, environment and existing files',
  'Tests set one location at a time; precedence is a property of all combinations.',
  ['src/discovery.c'], 'discover_config_file, from_env_var, locate_config_in_dir, locate_config_common, combine', 'path of the configuration file used')
p('C13', 'Reading input keeps every line and strips only what it may',
  'Every input line becomes exactly one text line whose characters are unchanged apart from the removal of trailing whitespace (when drawing) or of the line break only (when removing), and whether the last line ended in a line break is remembered. The common indentation removed from all lines is the smallest indentation of the non-empty lines, so relative indentation is preserved and no non-blank character is ever removed.',
  ['inputs'], 'all input texts, including empty, blank-only, CRLF, unterminated and indented lines with Unicode blanks',
  'Tests feed a fixed set of small files.',
  ['src/input.c', 'src/tools.c'], 'read_all_input, has_linebreak, trim_trailing_ws_carefully, btrim, btrim32, get_indent, analyze_input, analyze_line_ascii', 'the line table after reading')
p('C14', 'Removing a box deletes only box parts and blanks, never text',
  'When a box is removed, every character that is dropped belongs to a matched shape of the design, to the blanks between box and text or to blank lines that may be killed; the remaining lines keep their order and their characters. Lines that do not match the box are left untouched. With -k false no line of the content is dropped, and mending an intact box that was drawn without further options gives the same box again.',
  ['inputs', 'configurations'], 'all texts with complete, damaged or absent boxes, and all designs',
  'Tests remove some 60 sampled boxes; damaged boxes and text resembling box parts are unbounded.',
  ['src/remove.c'], 'remove_box, remove_top_from_input, remove_bottom_from_input, remove_vertical_from_input, killblank, find_horizontal_shape, match_horiz_line, find_vertical_west/east, hmm, add_spaces_to_line, move_contents_down', 'the text after removal')
p('C15', 'Automatic design detection compares shapes fairly and picks the best match',
  'A comparison method is considered exactly for the colour situation it is made for, comparison texts are the shape and input lines with exactly the trimming and invisible-character filtering asked for, and the detected design is the first one with the highest number of hits (the comparison methods are tried in a fixed order, and a later method only as long as no design has more than two hits); with no hits at all detection fails instead of guessing.',
  ['inputs', 'configurations'], 'all inputs and all sets of designs, coloured or not',
  'Tests autodetect a few dozen boxes drawn by the program itself.',
  ['src/detect.c'], 'comp_type_is_viable, input_is_mono, design_is_mono, prepare_comp_shape, prepare_comp_input, find_west_corner, find_east_corner, find_horizontal_shape, find_vertical_shape, autodetect_design', 'the design used by removal and repair')
p('C16', 'Output without colours contains no escape sequences and all visible text',
  'When colour output is off, every emitted string consists of exactly the visible characters of the original in order, without any character of an escape sequence; when it is on, the string is emitted unchanged. Whether colour is on follows the option if given and the terminal otherwise.',
  ['inputs'], 'all strings and both colour settings',
  'Tests use a few colour sequences at fixed positions.',
  ['src/bxstring.c', 'src/tools.c', 'src/boxes.c'], 'bxs_filter_visible, bxs_to_output, bxs_is_visible_char, check_color_support, count_invisible_chars, is_csi_reset', 'bytes written to the output')
p('C17', 'Substitution rules are applied to every line, in the order they are defined',
  'When drawing, every replacement rule of the design is applied to every input line, in definition order, each to the result of the previous one, once or globally as the rule says; when removing, the same holds for the reversion rules. The text width and indentation used for the box are those of the substituted lines, and an invalid pattern or failed substitution stops the run.',
  ['inputs', 'configurations'], 'all rule lists and all texts (the regular expression engine itself is trusted)',
  'Tests use designs with one or two rules.',
  ['src/input.c', 'src/regulex.c'], 'apply_substitutions, u32_regex_replace', 'text lines after substitution')
p('C18', 'Design listings are complete, ordered and correctly escaped',
  'Listing all designs shows every design exactly once in case-insensitive name order, and the tag list counts every tag exactly once per design. Shape texts and names are escaped such that the original characters can be recovered, and aliases and parent information belong to the design they are shown with.',
  ['inputs', 'configurations'], 'all sets of designs',
  'Tests compare listings of a few fixed configurations.',
  ['src/list.c', 'src/tools.c'], 'list_designs, escape, names, count_tag, get_tags, style_sort, print_design_list_*', 'listing output')
p('C19', 'Character classes and text utilities answer exactly as documented',
  'Configuration texts are accepted exactly if they contain only characters allowed in their place (shape, sample, file name, value), with the position of the first offending character reported. The small text utilities everything else is built on (repetition, bounded copies, concatenation, blank tests, delimiter changes, yes/no words, suffix spans) return exactly the documented text for every argument, including empty and absent ones.',
  ['inputs'], 'all texts and arguments', 'Unit tests sample a few arguments per function.',
  ['src/unicode.c', 'src/bxstring.c', 'src/tools.c', 'src/parsecode.c'], 'is_allowed_*, bxs_valid_in_*, repeat, bx_strndup, concat_strings, concat_strings_alloc, my_strrspn, strisyes, strisno, tag_is_valid, trim_trailing_ws_carefully, is_blank, u32_is_blank, array_count0', 'return values')
p('C20', 'Removing the box that was just drawn gives back the text',
  'For designs whose shapes do not occur in the text and texts without trailing blanks, removing a freshly drawn box yields the original lines again, and repairing an intact box reproduces it.',
  ['inputs', 'configurations'], 'all texts and designs meeting the side conditions',
  'Tests sample a few dozen round trips; the claim relates two complete program runs.',
  ['src/generate.c', 'src/remove.c', 'src/detect.c'], 'generate_box, output_box, remove_box, autodetect_design', 'output of boxes | boxes -r')
p('C21', 'Drawing and removing always terminate',
  'For every accepted configuration and every finite input, drawing, removing, repairing and listing finish and exit with a status; no combination of shape sizes makes the program run forever.',
  ['inputs', 'configurations'], 'all accepted designs and inputs', 'Tests run designs that happen to fit.',
  ['src/generate.c', 'src/remove.c'], 'horiz_precalc, vert_precalc search loops; match_horiz_line recursion', 'the program exits')
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open('properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
