#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Edit here, re-run, commit both."""
import json, os
P = []
TESTS = ("The only reliably passing test opens three files that do not exist; the doctest suite (not runnable "
         "here) compares a handful of values from a few fixed recorded files.")
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why + " " + TESTS,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- binout
p("B01", "Binout reads return exactly the bytes that were recorded",
  "For every well-formed binout file, reading any variable by its absolute path with the reader of its recorded type returns exactly the recorded values in order and their count, for all ten value types, all record field widths up to 8 bytes, absolute and relative directory changes (including '..'), and with any other record kinds in between; if the same variable is recorded twice the later record wins. "
  "Reading it with a reader of another type, reading a folder, an empty variable or a path that does not exist returns nothing and sets the error string.",
  ["inputs"], "all well-formed binout files: directory trees, record sequences, field widths, types, sizes and names; all paths and reader types",
  "The property ranges over all record sequences and field widths.",
  ["src/binout.c", "src/binout_directory.c", "src/binout_read.c", "src/path.c", "src/path_view.c", "src/binary_search.c"],
  [("record loop: CD/DATA handling", "src/binout.c binout_open"), ("sorted directory insert and search", "src/binout_directory.c, src/binary_search.c"), ("_binout_read", "src/binout_read.c")],
  observe=["binout_read_*", "error_string"])
p("B02", "Timed binout reads equal the per-time-step reads, in time order",
  "For every binout file and every variable that is recorded in consecutive time step folders (d000001, d000002, ...), the timed read returns the number of values per step, the number of steps and the values laid out step after step in ascending step order, each step equal to what the plain read of that step's variable returns. "
  "If a step lacks the variable, or holds it with another size or type, or the requested type differs, the call reports an error and returns nothing, never data that was not recorded.",
  ["inputs"], "all time-step folder layouts, recording orders, nesting depths, value types and step counts, and every way one step can disagree",
  "The property ranges over all step layouts and all disagreements between steps.",
  ["src/binout_read.c", "src/binout_directory.c"],
  [("_binout_search_timed/_binout_open_timed_path", "src/binout_read.c"), ("_binout_read_timed", "src/binout_read.c")],
  observe=["binout_read_timed_*"])
p("B03", "Binout listing, existence, type and step-count queries describe the file",
  "For every well-formed binout file the children listed for a folder are exactly the recorded entries of that folder, each once, in ascending byte order, and a path that is not a folder is reported as such. "
  "The existence query is true exactly for recorded variables, the type query returns the recorded type (or invalid with an error string), and the step count is the number of time step folders directly below the path, or the error value for missing paths and folders of variables.",
  ["inputs"], "all directory trees, all recording orders of their entries, and all query paths (present, absent, prefixes, extra separators)",
  "The property ranges over all trees and all insertion orders.",
  ["src/binout.c", "src/binout_directory.c", "src/binary_search.c"],
  [("sorted insertion", "src/binary_search.c binout_directory_binary_search_entry_insert"), ("binout_get_children", "src/binout.c"), ("binout_get_num_timesteps", "src/binout.c")],
  observe=["binout_get_children", "binout_variable_exists", "binout_get_type_id", "binout_get_num_timesteps"])
p("B04", "Simple binout paths resolve to the variable they abbreviate",
  "For every recorded variable, its simple path (the absolute path without the metadata or time step folder, with or without leading '/') resolves to the path that the matching read function accepts, with the recorded type and the correct timed flag, and reading through it yields the recorded data. "
  "A component present in a folder directly takes precedence over one in its metadata folder, which takes precedence over one in its first time step; a simple path that matches nothing resolves to nothing.",
  ["inputs"], "all directory trees with metadata and time step folders at any depth, and all simple paths",
  "The property ranges over all trees and all abbreviations.",
  ["src/binout.c"], [("binout_simple_path_to_real", "src/binout.c")], observe=["binout_simple_path_to_real"])
p("B05", "Opening several binout files merges them; a bad file only loses itself",
  "Opening a pattern that matches several binout files gives the union of their contents, every variable readable with the data from its own file, and where two files record the same variable the one from the file later in the (sorted) list is returned, for any number of files. "
  "A file that cannot be opened or parsed is named with a reason in the open error and does not change what is read from the other files; a pattern that matches nothing is reported as an error.",
  ["inputs", "fault_sequences"], "all sets of files matching a pattern, with any subset of them unreadable, truncated or not a binout file",
  "The property ranges over every subset of failing files and every number of files.",
  ["src/binout.c", "src/binout_glob.c", "src/multi_file.c"],
  [("binout_glob", "src/binout_glob.c"), ("failed-file cleanup", "src/binout.c binout_open"), ("per-entry file index", "src/binout_directory.c")],
  observe=["binout_open", "binout_open_error", "binout_read_*"])
p("B06", "No byte sequence makes opening or reading a binout file misbehave",
  "For every byte sequence given as a binout file, opening it, querying every path it lists, reading every variable with every reader and closing it terminates without crashing, without accessing memory out of bounds or after release, and without reading uninitialised memory. "
  "Data that cannot be read because the file is damaged or truncated is reported as an error, not returned.",
  ["inputs"], "all byte sequences; generated as mutations, truncations and re-sized fields of valid files",
  "The property ranges over all malformed inputs.",
  ["src/binout.c", "src/binout_directory.c", "src/binout_read.c", "src/path.c", "src/path_view.c"],
  [("header and record length validation", "src/binout.c"), ("fread/fseek result checks", "src/binout_read.c")],
  observe=["process survival under AddressSanitizer/UBSan", "binout_read_*", "error_string"])
p("B07", "A binout call's result does not depend on the calls made before it",
  "For every sequence of queries and reads on an open binout file, each call returns the same result it would return as the first call after opening, including after failed calls, and the error string is set exactly when the last read, timed read or type query failed. "
  "After closing, the same file can be opened again with the same results, and calls on a closed handle report failure instead of data.",
  ["histories"], "all sequences of API calls (reads of all kinds, failing calls, queries, close and reopen) on one handle",
  "The property ranges over all call histories.",
  ["src/binout.c", "src/binout_read.c", "src/multi_file.c"],
  [("BINOUT_CLEAR_ERROR_STRING", "src/binout_defines.h"), ("multi_file_access/multi_file_return", "src/multi_file.c")],
  observe=["every binout_* call", "error_string"])

# ---------------------------------------------------------------- d3plot
p("D01", "D3plot geometry, ids, titles and connectivity are returned as stored",
  "For every supported d3plot file, with 4 or 8 byte words, the ids of nodes and of every element kind (consecutive from 1 when the file stores none), the connectivity and material indices of solids, thick shells, beams and shells (as zero-based indices), the plot title, the run time, the part ids and the part titles are exactly the stored ones, in stored order. "
  "The list of all element ids is the ascending merge of the element ids of all kinds.",
  ["inputs"], "all supported control sections: word sizes, element kind counts, id sections, material counts, titles and header sections",
  "The property ranges over all control-word combinations.",
  ["src/d3plot.c", "src/d3plot_data.c", "src/d3_buffer.c"],
  [("control data and geometry layout", "src/d3plot_data.c, src/d3plot.c d3plot_open"), ("_d3plot_read_node_and_element_ids/_insert_sorted", "src/d3plot.c")],
  observe=["d3plot_read_*_ids", "d3plot_read_*_elements", "d3plot_read_title", "d3plot_read_part_titles"])
p("D02", "D3plot times and nodal states are returned per state exactly as stored",
  "For every supported d3plot family and every state, the state's time and the coordinates, velocities and accelerations of all nodes equal the stored values (node order preserved, displacements given relative to the initial geometry added to it), and the single precision, double precision, per-state and all-states variants agree with each other. "
  "A quantity that the file does not contain is reported as an error.",
  ["inputs"], "all supported files: word sizes, number of states, which nodal quantities are present, order of states requested",
  "The property ranges over all state layouts and all request orders.",
  ["src/d3plot.c", "src/d3plot_state.c", "src/d3plot_data.c"],
  [("state address calculation", "src/d3plot_data.c, src/d3plot.c"), ("node data readers", "src/d3plot.c")],
  observe=["d3plot_read_time*", "d3plot_read_all_time*", "d3plot_read_node_coordinates*", "d3plot_read_all_node_*"])
p("D03", "How a d3plot family is split into files does not change what is read",
  "For every d3plot plot, all results are the same however its states are distributed over the family's files (root, root01, ..., root99, root100, ...), including several states per file, one state per file and a state continued in the following file. "
  "The number of states and their order are those of the plot.",
  ["inputs", "configurations"], "all plots and all legal ways to distribute their data over family files",
  "The property relates every pair of splits of the same plot.",
  ["src/d3_buffer.c", "src/d3plot.c"],
  [("family file discovery and per-word file lookup", "src/d3_buffer.c"), ("state scanning over files", "src/d3plot.c")],
  observe=["every d3plot_read_*"])
p("D04", "D3plot element results are decoded field by field as stored",
  "For every supported d3plot file and every state, each solid, thick shell, beam and shell element result (stress, effective plastic strain, forces, resultants, thickness, strains, history variables and every additional integration point) equals the stored value at that element's position, with the history, strain and integration-point counts the file declares. "
  "An element kind that is absent gives an empty result or a reported error, never values of another kind.",
  ["inputs"], "all combinations of element counts, integration points, history variable counts and stress/strain flags, word sizes and states",
  "The property ranges over all control-word combinations that shape the element records.",
  ["src/d3plot.c", "src/d3plot_state.c", "src/d3plot_data.c"],
  [("element state readers", "src/d3plot.c"), ("state structures", "src/d3plot_state.c")],
  observe=["d3plot_read_solids_state", "d3plot_read_thick_shells_state", "d3plot_read_beams_state", "d3plot_read_shells_state"])
p("D05", "Shell mean values are the mean over all integration points",
  "For every shell and thick shell result, the mean stress tensor, mean effective plastic strain and mean history variables computed by the library are the component-wise arithmetic means over the mid, inner and outer surface and every additional integration point, within floating point rounding.",
  ["inputs"], "all shell and thick shell results: any number of additional integration points and history variables, finite values of any magnitude",
  "The property ranges over all values and all integration point counts.",
  ["src/d3plot_state.c"], [("d3plot_get_shell_mean/d3plot_get_thick_shell_mean", "src/d3plot_state.c")], observe=["d3plot_get_shell_mean", "d3plot_get_thick_shell_mean"])
p("D06", "A d3plot part contains exactly the elements assigned to its material",
  "For every d3plot file and every part, reading the part by index or by its id yields exactly the ids of the elements of each kind whose material is that part, in stored order, together with positions that match those ids, and an unknown id or index, or a part without elements, is reported as an error. "
  "The part's element count and its list of all element ids agree with the per-kind lists.",
  ["inputs"], "all assignments of elements to materials, including empty parts, all part id sets and orders",
  "The property ranges over all assignments.",
  ["src/d3plot.c"], [("d3plot_read_part/_by_id", "src/d3plot.c"), ("d3plot_part_get_all_element_ids", "src/d3plot.c")],
  observe=["d3plot_read_part", "d3plot_read_part_by_id", "d3plot_part_get_num_elements", "d3plot_part_get_all_element_ids"])
p("D07", "No byte sequence makes opening or reading a d3plot file misbehave",
  "For every byte sequence given as a d3plot file or family, opening it, calling every read function for every state and closing it terminates without crashing, without accessing memory out of bounds or after release, and without unbounded resource use. "
  "Unsupported or truncated files are rejected with an error message, and data that is missing from the file is reported as an error, not returned.",
  ["inputs"], "all byte sequences; generated as control-word mutations, truncations and corruptions of valid families",
  "The property ranges over all malformed inputs.",
  ["src/d3plot.c", "src/d3_buffer.c", "src/d3plot_data.c", "src/d3plot_state.c"],
  [("control-word validation", "src/d3plot_data.c"), ("word read result checks", "src/d3_buffer.c")],
  observe=["process survival under AddressSanitizer/UBSan", "error_string"])
p("D08", "A d3plot call's result does not depend on the calls made before it",
  "For every sequence of calls on an open d3plot handle, each call returns what it would return as the first call after opening, including after calls that failed (such as a state or part index out of range), and the error string is set exactly when the last read failed. "
  "Out-of-range state and part indices are always reported as errors, and calls on a closed handle never return data or crash.",
  ["histories"], "all sequences of API calls in any order, with failing calls interleaved",
  "The property ranges over all call histories.",
  ["src/d3plot.c", "src/d3_buffer.c"],
  [("error string handling", "src/d3plot_error_macros.h, src/d3_buffer.c"), ("file position handling", "src/d3_buffer.c")],
  observe=["every d3plot_* call", "error_string"])
p("D09", "Node queries of a part return each node of its elements exactly once",
  "For every d3plot file and part, the node indices of the part are exactly the distinct nodes referenced by the part's elements, in ascending order without duplicates, the node ids are the ids of those nodes, and the node count is their number. "
  "The result is the same whether or not the optional precomputed id and connectivity arrays are passed in.",
  ["inputs", "configurations"], "all element connectivities and part assignments, and every subset of optional arrays supplied by the caller",
  "The property ranges over all connectivities and all subsets of optional arguments.",
  ["src/d3plot_part_nodes.c", "src/pgni.h", "src/d3plot.c"],
  [("d3plot_part_get_node_ids2/indices2/num_nodes2", "src/d3plot.c, src/pgni.h")],
  observe=["d3plot_part_get_node_ids2", "d3plot_part_get_node_indices2", "d3plot_part_get_num_nodes2"])
p("D10", "Looking up an id gives its position, or says it is absent",
  "For every ascending list of ids, looking up an id that is in the list gives its position, and looking up any other id gives the not-found value.",
  ["inputs"], "all sorted id lists of any length including empty, and all ids",
  "The property ranges over all lists and ids.",
  ["src/d3plot.c", "src/binary_search.c"], [("d3plot_index_for_id", "src/d3plot.c")], observe=["d3plot_index_for_id"])

# ---------------------------------------------------------------- key files
p("K01", "Parsing a key file yields exactly its keywords and cards",
  "For every key file text, parsing yields each keyword with exactly its data lines as cards, in order, with comment lines and trailing comments removed and line endings (LF or CRLF, with or without a final newline) stripped, up to '*END' or the end of the file, with keywords ordered by name and equal names kept in file order. "
  "The result does not depend on line length or on where lines fall within the file.",
  ["inputs"], "all key file texts: any lines, comments, blank lines, line endings, line lengths and file sizes",
  "The property ranges over all texts, including lines longer than the line buffer and files longer than one read chunk.",
  ["src/key.c", "src/line.c", "src/extra_string.c"],
  [("read_line", "src/line.c"), ("key_file_parse_with_callback", "src/key.c"), ("sort in key_file_parse", "src/key.c")],
  observe=["key_file_parse"])
p("K02", "Keyword lookup finds every keyword of a name and nothing else",
  "For every parsed key file, looking up a name and an index returns the keyword that is the index-th of that name in file order, or nothing when there are fewer, and the slice for a name is exactly all keywords of that name. "
  "Names that do not occur give nothing and an empty slice.",
  ["inputs"], "all keyword multisets and all looked-up names and indices",
  "The property ranges over all multisets of names.",
  ["src/key.c", "src/binary_search.c"], [("key_file_get/key_file_get_slice", "src/key.c")], observe=["key_file_get", "key_file_get_slice"])
p("K03", "Callback parsing reports the same keywords and cards, with true locations",
  "For every key file, the callback parser reports the same keywords with the same cards in file order as the collecting parser, numbering the cards of each keyword from zero, and every report names the file and line number the line came from (the keyword's own line for a keyword without cards).",
  ["inputs"], "all key file texts and include trees",
  "The property relates two entry points over all texts.",
  ["src/key.c"], [("key_file_parse_with_callback", "src/key.c"), ("key_parse_info", "src/key.c")], observe=["key_file_parse_with_callback"])
p("K04", "Included key files are found and spliced in where they are included",
  "For every tree of key files using include statements (with file names over one or more lines, absolute or relative), parsing with includes enabled gives the same keywords as one file in which each include is replaced by the included text, where relative names are searched, in this order, in the working directory, the extra include paths of the configuration and the folders declared so far by *INCLUDE_PATH (relative to the working directory) and *INCLUDE_PATH_RELATIVE (relative to the root file's folder). "
  "With includes disabled nothing is opened; a missing include is an error or, if so configured, a warning that names the file while the rest is still parsed.",
  ["inputs", "configurations"], "all include trees, path forms, search path declarations and parser configurations",
  "The property ranges over all include trees and configurations.",
  ["src/key.c", "src/path.c"], [("_parse_include / include search", "src/key.c"), ("_parse_multi_line_string", "src/key.c")],
  observe=["key_file_parse", "key_file_parse_with_callback"])
p("K05", "Card fields parse to the number or type they spell",
  "For every card field of any width, the integer and floating point readers return the value the text spells (decimal integers of up to 18 digits with optional sign, decimals with optional exponent, surrounding blanks ignored; floating point values within the range of the type, to within rounding) and set the error status exactly when the text is not such a number, and the type query returns integer, float or string accordingly (float only with digits on both sides of any point). "
  "No field reads characters outside its own columns.",
  ["inputs"], "all field texts, field widths and positions within a card",
  "The property ranges over all texts and widths.",
  ["src/key.c"], [("card_parse_int_width/float_width/get_type_width", "src/key.c")],
  observe=["card_parse_int*", "card_parse_float*", "card_parse_get_type*"])
p("K06", "Walking a card visits consecutive fixed-width fields and extracts their text",
  "For every card and every sequence of field widths, the card cursor visits consecutive column ranges of those widths until the end of the card, the string readers return exactly the characters of the current field (trimmed of surrounding blanks, or untrimmed), and reading the whole card returns all of its text. "
  "The cursor ends exactly when no column is left, for cards of any length.",
  ["inputs", "histories"], "all cards (including longer than 255 characters), all sequences of widths and reads",
  "The property ranges over all cards and cursor histories.",
  ["src/key.c"], [("card_parse_begin/next/done", "src/key.c"), ("card_parse_string_width*/whole*", "src/key.c")],
  observe=["card_parse_string*", "card_parse_whole*", "card_parse_done"])
p("K07", "Include transform and transformation cards are decoded as documented",
  "For every *INCLUDE_TRANSFORM and *DEFINE_TRANSFORMATION keyword, whether parsed from a keyword or fed card by card through the callback parser, the decoded fields (file name, offsets, factors, transformation id, title, and every option with its name and parameters) equal what the cards contain at the documented columns.",
  ["inputs"], "all values of all fields, with and without title, any number of option cards",
  "The property ranges over all field values and both decoding routes.",
  ["src/include_transform.c"], [("key_parse_include_transform*", "src/include_transform.c"), ("key_parse_define_transformation*", "src/include_transform.c")],
  observe=["key_parse_include_transform", "key_parse_define_transformation"])
p("K08", "No text makes parsing a key file or reading its cards misbehave",
  "For every byte sequence given as a key file (including include cycles and paths of any length), parsing it, reading every card with every reader and any field width, and decoding it as include transform or transformation terminates without crashing and without accessing memory out of bounds or after release.",
  ["inputs"], "all byte sequences and include graphs; all field widths",
  "The property ranges over all inputs.",
  ["src/key.c", "src/line.c", "src/extra_string.c", "src/include_transform.c", "src/string_builder.c"],
  [("bounds handling in the line and card readers", "src/key.c, src/line.c")],
  observe=["process survival under AddressSanitizer/UBSan"])

# ---------------------------------------------------------------- cross-cutting
p("T01", "Concurrent calls return what they return alone",
  "In the default thread-safe build, any number of threads may read from one open binout or d3plot handle at the same time, through the C or the C++ API: every successful call returns exactly what it returns when made alone, with no data race, deadlock or corruption. "
  "(Failing calls share the handle's error string, and the run time read returns a static buffer; both are outside the guarantee.) "
  "Threads that work with handles of their own, or parse key files, do not affect each other at all, also when their calls fail.",
  ["schedules", "histories"], "all interleavings of calls from several threads on one handle or on handles of their own",
  "The property ranges over schedules; no test here runs threads reliably.",
  ["src/multi_file.c", "src/sync.c", "src/binout_read.c", "src/d3_buffer.c", "src/d3plot.c", "src/key.c", "src/cpp"],
  [("pool of file handles guarded by mutexes", "src/multi_file.c"), ("sync primitives", "src/sync.c")],
  observe=["binout_read_*", "d3plot_read_*", "key_file_parse*", "the C++ classes", "ThreadSanitizer reports"])
p("T02", "The build without thread safety behaves the same",
  "For every input file and sequence of calls made from one thread, the library built without thread safety returns the same results as the default build and reports errors in the same calls with the same messages (except that a file which can not be reached may be reported in other words).",
  ["configurations", "inputs"], "all files and call sequences, both build configurations",
  "The property relates two build configurations over all inputs.",
  ["src/multi_file.c", "src/multi_file.h", "src/binout.c", "src/d3_buffer.c"],
  [("NO_THREAD_SAFETY variants", "src/multi_file.c")], observe=["every binout_* and d3plot_* call"])
p("T03", "The build that measures run times behaves the same and measures balanced",
  "Built with PROFILING the library returns, for every input and sequence of calls made from one thread, the same results and errors as the default build. Every measurement a call begins is ended before the call returns, successful or not, and innermost first. "
  "END_PROFILING writes a report in which every measured section stands once below the section it was begun in, with the time spent between its begin and end (without the time the measuring itself takes, and a section begun again directly inside itself counted once), siblings listed from the longest to the shortest; it writes no report while something runs or if nothing was measured, and measuring starts afresh after it. With disable_stacking only the outermost sections are measured.",
  ["configurations", "inputs", "histories"], "all files and call sequences including failing file operations; all histories of begun and ended sections",
  "The property relates two build configurations over all inputs and error paths.",
  ["src/profiling.c", "src/profiling.h", "src/binout.c", "src/d3plot.c", "src/d3_buffer.c", "src/key.c"],
  [("_BEGIN_PROFILE_SECTION, _END_PROFILE_SECTION, END_PROFILING", "src/profiling.c"), ("BEGIN_PROFILE_FUNC / END_PROFILE_FUNC", "all of src/*.c")], observe=["every binout_*, d3plot_* and key_* call", "END_PROFILING"])
p("M01", "Every handle and result can be released completely",
  "For every input file (well-formed or damaged) and every sequence of calls, once all returned results and handles have been released with the documented functions, no memory allocated by the library and no file opened by it remains.",
  ["inputs", "histories"], "all input files of the three formats, including damaged ones, and all call sequences",
  "The property ranges over all error paths and call histories.",
  ["src/binout.c", "src/binout_read.c", "src/d3plot.c", "src/d3plot_state.c", "src/d3_buffer.c", "src/key.c", "src/include_transform.c", "src/multi_file.c"],
  [("*_close, *_free functions and error paths", "all")], observe=["live allocations", "open file descriptors"])
p("R01", "A failing file operation is reported and never turned into wrong data",
  "When opening, reading or positioning of a file fails, or a file is missing or has become shorter, while a binout, d3plot or key file is opened or read, then the call in progress either reports a failure (an error; for key files an error or a warning) or gives exactly the results it gives without the failure. "
  "Handles that are open stay usable: calls made after the cause is gone return what they always return.",
  ["faults", "histories"], "every file operation of every call, failing once, several times or from then on",
  "The property ranges over all points at which an operation can fail; no test injects failures.",
  ["src/multi_file.c", "src/d3_buffer.c", "src/d3plot.c", "src/d3plot_state.c", "src/d3plot_part_nodes.c", "src/pgni.h", "src/binout.c", "src/binout_read.c", "src/key.c", "src/line.c"],
  [("checks of the results of file operations", "src/multi_file.c, src/d3_buffer.c, src/binout.c, src/line.c"), ("errors passed on to the caller", "src/d3plot*.c")],
  observe=["results and error strings of every binout_* and d3plot_* read", "key_file_parse, key_file_parse_with_callback"])
p("C01", "The C++ API returns the same data and errors as the C API",
  "For every input file of the three formats, every read and query made through the C++ classes gives the same values, sizes and strings as the corresponding C function, and throws an exception carrying the library's error message exactly when the C function fails.",
  ["inputs"], "all well-formed and failing inputs and every wrapped function",
  "The property relates two APIs over all inputs.",
  ["src/cpp/binout.cpp", "src/cpp/d3plot.cpp", "src/cpp/d3plot_part.cpp", "src/cpp/d3plot_state.cpp", "src/cpp/key.cpp", "src/cpp/key.hpp", "src/cpp/include_transform.cpp"],
  [("wrapper classes", "src/cpp")], observe=["dro::Binout", "dro::D3plot", "dro::D3plotPart", "dro::KeyFile", "dro::Card"])
p("C02", "C++ arrays, strings and handles own their data exactly once",
  "For every sequence of constructions, copies, moves, assignments (including self-assignment) and element accesses on the C++ arrays, strings and handle classes, each object keeps reporting its own contents, equality means equal contents, out-of-range access through the checked accessor is rejected, and every owned resource is released exactly once.",
  ["histories"], "all sequences of special member operations and accesses",
  "The property ranges over all operation sequences.",
  ["src/cpp/array.hpp", "src/cpp/key.hpp", "src/cpp/key.cpp", "src/cpp/d3plot_part.cpp", "src/cpp/include_transform.hpp", "src/cpp/vec.hpp"],
  [("copy/move members", "src/cpp/array.hpp and handle classes")], observe=["dro::Array", "dro::String", "dro::SizedString", "dro handle classes"])
p("C03", "C++ iterators of keywords and cards visit every element once, in order",
  "From begin() to end(), the iterators of keywords and of cards visit every element exactly once and in file order, with prefix and postfix increments in any mixture; the postfix increment gives the former position, and copies stay where they are. "
  "Two iterators of the same walk are equal exactly when they are at the same position, their difference is the number of elements between them, and * and -> reach the element that indexing gives.",
  ["inputs", "histories"], "all numbers of keywords and cards and all walks over them",
  "The property ranges over all walks; the stable test uses no iterator.",
  ["src/cpp/key.hpp", "src/cpp/key.cpp"],
  [("iterator classes", "dro::Keyword::CardsIterator, dro::KeywordSlice::Iterator")], observe=["dro::Keyword::begin, end", "dro::KeywordSlice::begin, end"])
p("C04", "Printed values show the numbers they hold",
  "A vector, connectivity, tensor, surface or element result that is printed, by the C++ stream operators or by str() and repr() in Python, alone or in an array, shows each of its numbers exactly once, in the documented order of its fields and under the name of the field where fields are named; numbers are formatted as the stream formats single ones. Names and numbers count, punctuation does not.",
  ["inputs"], "all values of the printable types and all stream formats",
  "The property ranges over all values; the stable test prints nothing.",
  ["src/cpp/d3plot.cpp", "src/cpp/vec.hpp", "src/cpp/array.hpp", "src/python/pybind11_d3plot.cpp"],
  [("operator<<", "src/cpp/d3plot.cpp, vec.hpp, array.hpp"), ("__str__, __repr__", "src/python")], observe=["operator<<", "str() and repr()"])
p("P01", "The Python module returns the same data and errors as the C API",
  "For every input file of the three formats, reading through the Python module gives the same values, names and shapes as the C API, and raises an exception with the library's error message where the C API fails.",
  ["inputs"], "all well-formed inputs and failing calls reachable from Python",
  "The property relates two APIs over all inputs; the stable test only checks three error messages.",
  ["src/python/pybind11_binout.cpp", "src/python/pybind11_d3plot.cpp", "src/python/pybind11_key.cpp", "src/python/conversions.hpp"],
  [("pybind11 bindings", "src/python")], observe=["dynareadout.Binout", "dynareadout.D3plot", "dynareadout.key_file_parse"])

p("P02", "Python strings and arrays behave like the sequences they hold",
  "Every string and numeric array of the Python module, however it was created (from a size, a str, a list or a tuple, or returned by a read) and after any sequence of element assignments, has the length, elements, iteration order, str() and repr() of its current contents; == and != compare it by contents with Python sequences, and objects of the same kind with each other; strings and arrays of 8-bit integers are ordered like their bytes, so sorting them sorts their contents. Indices behind the end raise IndexError, and values that do not fit are refused without changing anything.",
  ["inputs", "histories"], "all contents, sequences of assignments and pairs of objects",
  "The property ranges over all contents, pairs and histories; the stable test does not touch these classes.",
  ["src/python/conversions.hpp", "src/cpp/array.hpp"],
  [("array and string bindings", "src/python/conversions.hpp")], observe=["dynareadout.String", "dynareadout.SizedString", "dynareadout arrays"])
p("P03", "Python objects stay valid and unchanged while they are referenced",
  "An object that was reached through the Python module (handles, arrays, strings, elements of arrays, their surfaces, tensors and history variables, parts, keywords, cards, options of transformations, iterators) reads the same for as long as it is referenced, in whatever order the objects it was reached from, or others, are released or garbage collected. "
  "Setting an element of a result array to another element copies that element's contents or is refused with an exception; it never shares or frees memory of another object.",
  ["histories"], "all histories of reads, accesses, iterations, element assignments and releases",
  "The property ranges over all orders of release; the stable test never releases an object early.",
  ["src/python/pybind11_binout.cpp", "src/python/pybind11_d3plot.cpp", "src/python/pybind11_key.cpp", "src/python/conversions.hpp", "src/cpp/array.hpp"],
  [("return value policies and keep_alive", "src/python"), ("array_getitem, array_setitem", "src/python/conversions.hpp")], observe=["attributes, elements and methods of every Python class"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            x["statement"] = x["statement"].strip()
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
