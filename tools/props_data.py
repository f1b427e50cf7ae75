HOOKS = {"guard": "none: no hooks are needed, all observations are made through public interfaces",
         "enable": "nothing to enable", "source_commits": []}
NOTES = "TLA+ specifications checked with TLC; recorded executions of the real code are validated against the same specifications. See DESIGN.md."

CORE = "src/archon/core/"
prop("C01", "Deque is a sequence under every history of operations",
     "For every history of operations on a deque (construct, assign, push/pop at both ends, resize, erase, clear, shrink, swap, copy, move, element access, iteration, comparison), the visible contents, size and results are those of a plain sequence, whatever the internal wrap-around and capacity. Every element object is constructed before it is used, destroyed exactly once, and none is leaked or duplicated. An exception thrown while elements are being constructed leaves no leaked or doubly destroyed element.",
     ["histories", "inputs"], "All sequences of deque operations with all argument values, including operations that straddle the wrap-around point of the storage.",
     "Tests run a few fixed sequences on nearly fresh deques; the wrap-around position, capacity and size at the time of each operation have many combinations that are not visited.",
     [CORE+"deque.hpp"], [("circular storage arithmetic", CORE+"deque.hpp"), ("growth and relocation", CORE+"deque.hpp")],
     observe=["public interface of core::Deque"])
prop("C02", "Vector with in-place storage is a sequence under every history",
     "For every history of operations on a vector with a statically sized in-place part (construct, assign, push, pop, insert, erase, resize, reserve, swap, copy, move, clear), the visible contents, size and results are those of a plain sequence, whether elements live in place or in allocated memory. Every element object is destroyed exactly once and none is leaked. Capacity is never less than size, and never less than what was reserved.",
     ["histories", "inputs"], "All sequences of vector operations, for in-place sizes 0 and above, across the switch from in-place to allocated memory.",
     "Tests use a few fixed sequences; the combinations of in-place/allocated on both sides of swap, move and assign, with different sizes, are not all visited.",
     [CORE+"vector.hpp", CORE+"impl/vector_impl.hpp"], [("storage switching", CORE+"impl/vector_impl.hpp")],
     observe=["public interface of core::Vector"])
prop("C03", "Flat maps and sets are ordered maps and sets under every history",
     "For every history of insertions, emplacements, erasures and clears, a flat map, multimap, set or multiset holds exactly the entries an ordered associative container would hold, in key order, with unique keys in map and set and with equal keys kept in multimap and multiset. Lookups (find, contains, count, lower bound, upper bound, equal range) and the results of modifications (iterator, inserted flag, number erased) agree with that contents.",
     ["histories", "inputs"], "All histories of operations with all keys and values.",
     "Tests check single operations on a few small containers.",
     [CORE+"flat_map.hpp", CORE+"flat_multimap.hpp", CORE+"flat_set.hpp", CORE+"flat_multiset.hpp", CORE+"impl/flat_map_impl.hpp"],
     [("binary search and ordered insertion", CORE+"impl/flat_map_impl.hpp")], observe=["public interface of the flat containers"])
prop("C04", "Range map equals the pointwise map under every history",
     "For every history of assignments and updates of keys and key ranges, and of defragmentations, the value a range map associates with each key is the one the last operations on that key produced, and keys never mentioned have no value. Listed ranges are nonempty, disjoint and in ascending order, and defragmentation changes no association and leaves no two adjacent ranges with equal values.",
     ["histories", "inputs"], "All histories of assign/update/defrag over all ranges.",
     "The existing tests contain almost nothing on range maps; overlaps of a new range with existing ranges have many cases.",
     [CORE+"range_map.hpp"], [("range splitting", CORE+"range_map.hpp")], observe=["iteration over core::RangeMap"])
prop("C05", "Memory streams read and write exactly the bytes, at any position",
     "For every history of reads, writes, seeks, position queries and resets, an in-memory input stream delivers exactly the characters of its memory at the current position, and an in-memory output stream holds exactly the characters written at the positions they were written, never beyond its capacity. Seeks outside the valid range fail and change nothing but the stream's failure state.",
     ["histories", "inputs"], "All histories of stream operations for all memory sizes and seed memory sizes.",
     "Tests perform a handful of reads, writes and seeks.",
     [CORE+"memory_input_stream.hpp", CORE+"memory_output_stream.hpp", CORE+"seed_memory_output_stream.hpp"],
     [("stream buffer pointer management", CORE+"memory_output_stream.hpp")], observe=["std::istream/std::ostream interface"])
prop("C06", "Text file operations compose as on one character file",
     "For every history of reads, writes, flushes, position queries, seeks, closes and reopens on a text file, buffered or not, with any buffer sizes and with or without newline translation, the characters read are the decoded contents of the file at the current position, and after a flush the file holds exactly the encoding of the characters written, in order, at the position they were written. Buffering and switching between reading and writing is never visible in contents or results. A position obtained from a position query restores exactly that position when sought to.",
     ["histories", "inputs", "configurations"], "All operation histories, all buffer sizes, all chunkings, Posix and Windows newline modes, narrow and wide characters.",
     "Tests use a few fixed scripts with one or two buffer sizes; bugs here depend on where buffer boundaries fall relative to characters and on the order of mode switches.",
     [CORE+"text_file.hpp", CORE+"impl/text_file_impl.hpp", CORE+"impl/prim_text_file_impl.hpp", CORE+"impl/prim_text_file_impl.cpp", CORE+"impl/buffered_text_file_impl.hpp", CORE+"newline_codec.cpp"],
     [("reading/writing mode switching", CORE+"text_file.hpp"), ("buffer management", CORE+"impl/text_file_impl.hpp")],
     observe=["core::TextFile and relatives; the bytes of the file"])
prop("C07", "Transcoding is independent of how the data is cut into pieces",
     "Decoding (or encoding) text through the incremental character, newline and text codecs gives the same output, and detects the same errors at the same place, however the input is split into pieces and however small the output buffers are. Encoding followed by decoding gives back the original text.",
     ["inputs", "histories"], "All texts including invalid byte sequences, all ways of cutting the input, all output buffer sizes.",
     "Tests use fixed strings with a few cuts.",
     [CORE+"impl/char_codec.hpp", CORE+"impl/text_codec_impl.hpp", CORE+"text_codec.hpp", CORE+"newline_codec.cpp", CORE+"unicode.hpp"],
     [("incremental codec state", CORE+"impl/char_codec.hpp")], observe=["decode()/encode() results"])
prop("C08", "Unicode transcoding follows the UTF-8/UTF-16 definitions for all input",
     "For every input sequence, valid or not, conversion between UTF-8, UTF-16 and sequences of code points consumes and produces exactly what the encoding forms define, resumes correctly when output space runs out or input is cut, and reports an error exactly at the first ill-formed place; the lenient variants produce one replacement character for each ill-formed place and keep everything else, and results are always placed at the specified offset of the output buffer.",
     ["inputs", "histories"], "All byte/unit sequences and all cuts.",
     "Tests use fixed strings.",
     [CORE+"unicode.hpp", CORE+"unicode_bridge.hpp"], [("UTF-8 decoder/encoder state machines", CORE+"unicode.hpp")],
     observe=["encode/decode functions in all variants (incremental, partial, throwing, lenient), resync, transcoders"])
prop("C09", "Base64 coding is a chunk-independent bijection and rejects bad input",
     "Encoding any byte sequence, in one go or in any pieces, gives the RFC 4648 text of that sequence with the selected alphabet and padding, and decoding that text gives the sequence back. Decoding anything that is not a valid text (ignoring white space where that is allowed) fails, and computed buffer sizes are always sufficient.",
     ["inputs", "histories"], "All byte sequences, all texts, all piece sizes.",
     "Tests use a few fixed strings.",
     [CORE+"base64.hpp", CORE+"base64.cpp"], [("incremental encoder", CORE+"base64.cpp")], observe=["base64 functions"])
prop("C10", "File handles obey positions, modes and locks",
     "For every history of operations on one or more handles to the same file, reads return the bytes of the file at the handle's own position, writes change exactly the bytes at that position (or append), truncation and seeking have their documented effect, and opening modes permit and create exactly what they say. Loading, saving and creating whole files do so. System calls that are interrupted or fall short are carried on with, and for those that fail the error is reported together with how much was done. An exclusive lock is held by at most one handle, and never together with a shared lock of another handle. An open file is closed when the file object that holds it is closed, destroyed or made to hold another, no earlier, and exactly once, whichever object it has been moved to; standard streams are closed only on request.",
     ["histories", "inputs", "schedules"], "All histories over several handles.",
     "Tests check single operations.",
     [CORE+"file.hpp", CORE+"file.cpp"], [("system call wrappers", CORE+"file.cpp")], observe=["core::File interface and file bytes"])
prop("C11", "Integer arithmetic is exact or reports overflow",
     "For all argument values and integer types, the checked arithmetic operations (add, subtract, multiply, shift, power, casts) give the exact mathematical result when it is representable in the target type and otherwise report overflow without changing the target. Rounding division, periodic modulus and square root give the mathematically defined integer. Multi-part integers of any part type and count behave as two's complement integers of their total width in all arithmetic, comparison, shift and bitwise operations.",
     ["inputs"], "All operand values (exhaustive for narrow types), types and part layouts.",
     "Tests use selected operands.",
     [CORE+"integer.hpp", CORE+"mul_prec_int.hpp", CORE+"integer_traits.hpp"], [("checked operations", CORE+"integer.hpp"), ("multi-part carries", CORE+"mul_prec_int.hpp")], observe=["function results"])
prop("C12", "Formatted values parse back, and quoting is unambiguous",
     "For every value, formatting it as an integer in any base, as a list, or as a quoted string, and parsing the result (where a parser exists) gives the value back, and parsing text that denotes no representable value fails. Quoted output respects the maximum size, and escapes exactly the characters that need it.",
     ["inputs"], "All values and texts.",
     "Tests use fixed values.",
     [CORE+"as_int.hpp", CORE+"as_list.hpp", CORE+"quote.hpp", CORE+"integer_formatter.hpp", CORE+"integer_parser.hpp", CORE+"value_parser.hpp"],
     [("formatters and parsers", CORE+"integer_parser.hpp")], observe=["formatted text and parsed values"])
prop("C13", "String matcher decides exactly the language of its patterns",
     "For every set of wildcard patterns, literal ones included, and every string, the matcher reports a match exactly when some pattern matches the string, and then reports a pattern that does match, the first given one when several do. Construction reports ambiguity between patterns exactly when some string matches two of them and ambiguity is not allowed.",
     ["inputs"], "All pattern sets and all strings.",
     "Tests use a dozen patterns.",
     [CORE+"string_matcher.hpp"], [("NFA to DFA construction", CORE+"string_matcher.hpp")], observe=["match() results, build() failures"])
prop("C14", "Word wrapping loses nothing and obeys the width",
     "For every text and width, word wrapping gives lines that contain exactly the words of the text in order, no line longer than the width unless it holds a single word that is longer, and no word moved to the next line that would have fitted (or, in high quality mode, with the least possible sum of squared gaps). The text formatter lays these lines out with exactly the requested offset, indentation, padding, alignment, justification, clipping and filling, however the text was submitted.",
     ["inputs", "configurations"], "All texts, widths and configurations.",
     "Tests use a few texts.",
     [CORE+"word_wrap.hpp", CORE+"word_wrap.cpp", CORE+"text_formatter.hpp"], [("line breaking", CORE+"word_wrap.cpp"), ("layout of lines", CORE+"text_formatter.hpp")], observe=["breakpoints and badness", "formatted text"])
prop("C15", "String templates expand exactly their parameters",
     "For every template text and parameter set, parsing succeeds exactly when every parameter reference is well formed and known, and expansion replaces each reference by its current parameter value and copies all other text unchanged.",
     ["inputs"], "All template texts.",
     "Tests only check the field width.",
     [CORE+"string_template.hpp"], [("template parser and expander", CORE+"string_template.hpp")], observe=["expanded text"])

prop("L01", "Log messages reach exactly the right sinks with the right prefix",
     "For every arrangement of loggers stacked by selecting channels, limiting, prefixing, timestamping, channelling, duplicating, jailing, bridging between character types and copying, a message logged on a logger at a level reaches each root that it is routed to exactly once per route, line by line with all prefixes of its route in order, exactly when its level passes every limit on the way, and reaches no other root. The effective limit, the selected channel and the set of channels of each logger are those that follow from its construction, naming a channel that does not exist is an error, and changing a limit takes effect at once for all loggers that depend on it.",
     ["configurations", "histories"], "All logger arrangements, channels, levels and limit changes.",
     "Existing tests cover only the encoding logger.",
     ["src/archon/log/logger.hpp", "src/archon/log/limit_logger.hpp", "src/archon/log/channel_logger.hpp", "src/archon/log/duplicating_logger.hpp", "src/archon/log/prefix_logger.hpp", "src/archon/log/channel.hpp"],
     [("limit chain", "src/archon/log/limit_logger.hpp"), ("channel lookup", "src/archon/log/channel_map.hpp")], observe=["root_log() output of each sink"])
prop("L02", "Concurrent logging never loses, tears or reorders messages",
     "When any number of threads log through loggers that share a sink, each message that passes its limits appears in the sink's output exactly once per route, as whole uninterrupted lines that are those of the message itself, and the messages of one thread appear in the order that thread logged them, whatever the interleaving. Only one thread at a time is in the sink, and no thread that logs is left stuck. A limit that is changed while a message is being logged may or may not apply to that message, and applies to all later ones.",
     ["schedules"], "All interleavings of logging threads.",
     "No existing test logs from more than one thread through one sink on purpose.",
     ["src/archon/log/logger.hpp", "src/archon/log/limit_logger.hpp"], [("sink mutex", "src/archon/log/logger.hpp")], observe=["sink output"])

prop("P01", "Command line matching follows the specification's grammar",
     "For every accepted specification and every argument list whose options are in order, the processor succeeds exactly when the remaining symbols (keywords, values and pattern options; an argument that is a keyword at a place where the keyword can stand counts as the keyword) match one of the patterns. It then executes that pattern's action exactly once, with exactly the argument values that the pattern's structure assigns to the parameters of the function (optional, repeated, alternative and nested parts, positions, counts and indexes of branches included), and the exit status is what the function returned. Where several patterns match and that is allowed, the first specified one is executed.",
     ["inputs", "configurations"], "All pattern structures (sequence, optional, alternatives, repetition) and all argument lists.",
     "Tests use a few dozen hand-picked pattern and argument pairs.",
     ["src/archon/cli/impl/pattern_matcher.hpp", "src/archon/cli/impl/nfa_builder.hpp", "src/archon/cli/impl/spec_parser.hpp", "src/archon/cli/impl/pattern_args_parser.hpp", "src/archon/cli/processor.hpp"],
     [("pattern NFA", "src/archon/cli/impl/pattern_matcher.hpp")], observe=["executed actions and their arguments"])
prop("P02", "Command line options are recognized and applied exactly as given",
     "For every accepted specification and every argument list, short, clustered and long options and their arguments (attached, separate or absent) are recognized by the documented rules. When all is well, every option action is applied once per occurrence, in order, with the right value, before the action of the matching pattern, and a short-circuiting option ends processing successfully. Unknown options, missing or unexpected arguments, malformed values, unmatched arguments and misplaced pattern options are all reported, in the order of the arguments, with failure as the exit status, and no pattern action is then executed. Arguments after a stop option are values, and delegated arguments are processed by the sub-specification in the same way.",
     ["inputs", "configurations"], "All option sets and argument lists.",
     "Tests use a few option sets and argument lists.",
     ["src/archon/cli/impl/processor.hpp", "src/archon/cli/impl/option_action.hpp", "src/archon/cli/processor.hpp", "src/archon/cli/option_actions.hpp"],
     [("option parsing", "src/archon/cli/impl/processor.hpp")], observe=["option actions, errors reported"])
prop("P03", "Ambiguous command line specifications are detected exactly",
     "A command line specification is rejected for ambiguity between patterns exactly when some list of symbols matches two of them and this is not allowed, for positional ambiguity inside a pattern exactly when some list of symbols can be assigned to it in two ways and this is not allowed, and for structural ambiguity exactly when a pattern has one of the documented structures that cannot be told apart. Malformed patterns, option forms and conflicting or mismatching options and functions are rejected each with its own error code, and every other specification is accepted.",
     ["configurations"], "All pattern sets.",
     "Tests use a few pattern sets.",
     ["src/archon/cli/impl/pattern_matcher.hpp", "src/archon/cli/impl/nfa_builder.hpp"],
     [("ambiguity detection during determinization", "src/archon/cli/impl/pattern_matcher.hpp")], observe=["specification errors"])

prop("K01", "Test runner executes everything once and counts everything",
     "For any test list, filter, order, repetition count, thread count and schedule, a run executes each selected and enabled test exactly once per repetition, and the reported summary (executions, failed executions, checks, failed checks) and the success result equal what happened in those executions. Reporter callbacks never overlap and are properly nested: root begin first, one thread begin and one thread end per thread, begin, failures and end per execution within its thread, root end last. Tests not marked safe for concurrency run on the calling thread and never overlap with any other test.",
     ["schedules", "configurations", "inputs"], "All test lists, outcomes, thread counts, repetition counts and completion orders.",
     "The framework's own tests check single checks and never the runner with several threads and mixed concurrent and nonconcurrent tests.",
     ["src/archon/check/test_runner.cpp", "src/archon/check/noinst/thread_context_impl.cpp", "src/archon/check/noinst/root_context_impl.hpp"],
     [("execution queue under the root mutex", "src/archon/check/noinst/thread_context_impl.cpp"), ("counter merging", "src/archon/check/noinst/thread_context_impl.cpp")],
     [("next_concur_exec", "next execution to hand out", "src/archon/check/noinst/root_context_impl.hpp"), ("last_thread_to_end", "thread context that runs nonconcurrent tests", "src/archon/check/noinst/root_context_impl.hpp")],
     ["check::Reporter callbacks, test bodies, result of run()"])
prop("K02", "Test selection and order follow filters and order patterns",
     "For every filter text with at most one separator and every test list, exactly the enabled tests whose names match an include pattern and no exclude pattern are executed, once per repetition, where no include patterns means all. With a list of order patterns, tests begin in the order of the first pattern their name matches, unmatched ones last, otherwise in definition order; with several threads those that do not allow others beside them come after the others; a shuffled run executes the same tests. The counts of disabled, excluded and selected tests are true, two tests with the same name are reported as an error, and the command line tool selects, orders and repeats tests in the same way and returns failure exactly when an executed test fails.",
     ["inputs", "configurations"], "All filter texts, order lists and test names.",
     "No existing test covers filters or order.",
     ["src/archon/check/wildcard_filter.cpp", "src/archon/check/pattern_based_test_order.cpp", "src/archon/check/test_runner.cpp"],
     [("wildcard filter", "src/archon/check/wildcard_filter.cpp")], observe=["order of executed tests, counts of excluded and disabled tests"])

prop("K03", "Test reports say exactly what happened",
     "For every run of tests, number of threads, schedule and combination of failures, each failed check and each exception that escapes from a test is reported exactly once to each of several reporters driven together, in the order in which they occur in the execution, with the mapped path of the source file and the line (those of the test for an exception) and a message that names the check, its arguments and, where compared, their values. The text report has one line per failure, with the thread where several share a log, path, line, name of the test, number of the repetition where tests are repeated, and the breadcrumb trail; what tests log themselves is there when its level is within the limit; with a log file per thread each thread's lines are in its file; the opening and closing lines tell the true numbers. The XML report is well-formed whatever characters texts, names and paths have, and lists each execution once, in order of tests and repetitions, with exactly its failures and the true totals.",
     ["schedules", "inputs", "configurations"], "All interleavings of failures, all texts, names and paths.",
     "No existing test looks at a report.",
     ["src/archon/check/xml_reporter.cpp", "src/archon/check/simple_reporter.cpp", "src/archon/check/duplicating_reporter.cpp", "src/archon/check/noinst/thread_context_impl.cpp", "src/archon/check/test_trail.cpp"],
     [("path cache and report under the root mutex", "src/archon/check/noinst/thread_context_impl.cpp"), ("escaping", "src/archon/check/xml_reporter.cpp")], observe=["text logs, XML documents, check::Reporter callbacks"])

prop("U01", "Packed rectangles never overlap and lie inside their bins",
     "For every set of rectangles, spacing, margin, bin size and bin limit, a successful packing places every rectangle inside one of at most the allowed number of bins with the requested margin, with at least the requested spacing between any two rectangles of a bin, and the reported utilized sizes cover exactly the placed rectangles. Packing fails only when the rectangles did not fit, and a failed or repeated packing does not disturb later ones. The suggested bin width leaves room for every rectangle, and is the width of a square of the same area including spacing where that suffices.",
     ["inputs", "histories"], "All rectangle sets and parameters.",
     "One randomized test with one parameter set.",
     ["src/archon/util/rectangle_packer.hpp"], [("free-space tree", "src/archon/util/rectangle_packer.hpp")], observe=["positions reported by the packer"])
prop("U02", "k-d tree search finds the closest point",
     "For every finite set of points, every query point and every maximum distance, searching a sorted k-d tree reports a point exactly when some point lies closer than the maximum distance, and the reported point is one of the set at the smallest distance, which is the reported distance. Sorting only permutes the points.",
     ["inputs"], "All point sets, dimensions, queries and distance limits.",
     "One randomized test.",
     ["src/archon/util/kdtree.hpp"], [("branch pruning", "src/archon/util/kdtree.hpp")], observe=["kdtree_find() results"])
prop("U03", "Pixel box geometry is exact integer geometry without overflow",
     "Containment, clipping and overflow tests of pixel positions, sizes and boxes give the exact set-theoretic answer for all integer coordinates, including those at the limits of the integer type.",
     ["inputs"], "All coordinates.",
     "Tests use a few boxes.",
     ["src/archon/util/pixel_box.hpp", "src/archon/util/pixel_pos.hpp", "src/archon/util/pixel_size.hpp"], [("clip", "src/archon/util/pixel_box.hpp")], observe=["function results"])
prop("U04", "CSS colors parse and format faithfully",
     "Every color (with components of no more than six significant digits where they are not whole numbers) formats as a CSS color that parses back to the same color and that any reader of CSS would understand, every CSS color text (a name, three, four, six or eight hexadecimal digits, or the RGB and HSL functions) parses to the color it denotes, names and values of the named colors are those of CSS, texts that are not CSS colors are rejected, and the conversion to hexadecimal form gives the closest color.",
     ["inputs"], "All colors and texts.",
     "Tests use a few colors.",
     ["src/archon/util/css_color.cpp", "src/archon/util/css_color.hpp"], [("parser", "src/archon/util/css_color.cpp")], observe=["parse/format results"])

prop("I01", "Images store pixels independently in every pixel format",
     "For every pixel format, image size and history of block writes, fills and reads, each pixel reads back exactly as last written (after the format's component reduction), and writing a block changes no pixel outside the block and no memory outside the image.",
     ["histories", "inputs", "configurations"], "All formats (integer, packed, subword, indexed), sizes, blocks and histories.",
     "Tests write one picture per format and compare.",
     ["src/archon/image/packed_pixel_format.hpp", "src/archon/image/subword_pixel_format.hpp", "src/archon/image/integer_pixel_format.hpp", "src/archon/image/indexed_pixel_format.hpp", "src/archon/image/tray_image.hpp", "src/archon/image/buffered_image.hpp"],
     [("pixel addressing", "src/archon/image/subword_pixel_format.hpp")], observe=["image read/write/fill and the raw buffer"])
prop("I02", "Reading outside an image follows the falloff mode at every position",
     "For every image size, read position and block size, and every combination of horizontal and vertical falloff modes, each pixel of the block is the one the falloff mode defines (background color, edge, or repetition of the image), at positions inside and arbitrarily far outside the image, in whichever color space and component representation the block is requested.",
     ["inputs", "configurations"], "All positions, sizes and mode pairs.",
     "Tests cover one image and a few positions.",
     ["src/archon/image/reader.hpp", "src/archon/image/reader.cpp"], [("read area adjustment and progressive generation", "src/archon/image/reader.cpp")], observe=["Reader::get_block()"])
prop("I03", "Writing to an image affects exactly the overlap of block and image",
     "For every target image and every history of fills, block writes and image-to-image writes at any position, exactly the pixels inside both the image and the specified area change, each to the source pixel of the same relative position (converted to the color space and representation of the image, or to the closest colors of its palette, and blended when so requested).",
     ["inputs", "histories"], "All positions, sizes, and histories.",
     "Tests use a few positions that overlap partially.",
     ["src/archon/image/writer.hpp", "src/archon/image/writer.cpp"], [("clipping and subdivision", "src/archon/image/writer.hpp")], observe=["Writer operations and image contents"])
prop("I04", "A buffer format seen as another one describes the same pixels in the same memory",
     "Whenever a buffer format is recast to another kind of format or to another word type, the resulting format is valid, uses the requested word type, and describes exactly the same pixels: every bit of every component of every pixel lies in the same place of the same memory, for every image size; a format always recasts to itself; and no recast is offered between unrelated word types other than to bytes.",
     ["inputs", "configurations"], "All formats (integer, packed, subword) over all word types, channel configurations and byte orders, and all image sizes.",
     "No existing test covers recasting.",
     ["src/archon/image/buffer_format.cpp", "src/archon/image/buffer_format.hpp"], [("recasting", "src/archon/image/buffer_format.cpp")], observe=["BufferFormat::try_cast_to()"])
prop("I05", "PNG files give the picture they are of, and saved images come back",
     "Loading a PNG file of any color type, bit depth, filtering, palette, transparency and interlacing gives the picture that the file is of, whatever pieces the source comes in and whether the load is tracked or not. Saving an image of any size and pixel format (interlaced if so asked) writes a sound PNG file of that picture, and loading that file gives an image of the same size and channels with the same pixels. Loading a truncated file, a file whose signature or essential chunks are damaged, or from a source that fails, and saving to a sink that fails, reports an error (the source's or sink's own one if there is one) and leaves the image argument as it was; an exception from a progress tracker comes through. A tracker is told of progress that never exceeds the total, and last of completion.",
     ["inputs", "fault_sequences"], "All image contents, formats and file damages.",
     "No existing test saves and loads.",
     ["src/archon/image/file_format_png.cpp", "src/archon/image/load.cpp", "src/archon/image/save.cpp"], [("PNG reader/writer", "src/archon/image/file_format_png.cpp")], observe=["save()/load() results"])

prop("I06", "Image file formats are found as documented",
     "A file format registry holds formats with different identifiers in the order of registration, refuses one whose identifier is taken, and finds formats by identifier, MIME type and filename extension in that order. Loading uses the format that is named, or else the first one that recognizes the contents, asking those associated with the MIME type first, then those associated with the extension, then the rest, and none of them twice; saving uses the named one, or the first one associated with the MIME type, or else with the extension; otherwise the documented error is reported. The chosen format gets all of the contents from the beginning, no matter how much was read for detection, and the format-specific configuration that was registered for its type. Rewindable sources give the same bytes again after being rewound, and objects registered by type are found by that type from everywhere in the program.",
     ["inputs", "histories"], "All registries, contents and hints; all histories of reads and rewinds.",
     "There is one real format, and no existing test of detection.",
     ["src/archon/image/load.cpp", "src/archon/image/save.cpp", "src/archon/image/file_format_registry.cpp", "src/archon/core/rewindable_source.cpp", "src/archon/core/typed_object_registry.hpp"], [("detection", "src/archon/image/load.cpp")], observe=["load()/save() with formats that record what is asked of them", "registry lookups"])

prop("D01", "Timestamp unwrapping recovers true time across wrap-arounds",
     "For every sequence of monotonic timestamps reduced to the clock's bit width, and every secondary clock readings close enough to the primary ones, the unwrapped timestamps differ from one another exactly as the original ones do.",
     ["histories", "inputs"], "All timestamp histories and delays.",
     "Tests use a few fixed sequences.",
     ["src/archon/display/noinst/timestamp_unwrapper.hpp"], [("wrap-around estimate", "src/archon/display/noinst/timestamp_unwrapper.hpp")], observe=["unwrap_next_timestamp()"])
prop("R01", "Key bindings call handlers in matched down/up pairs",
     "For every set of key bindings and every history of key presses, releases, modifier mode changes and focus losses, including handlers that interrupt processing, a key press and its release or focus loss reach exactly the handler bound for that key, modifier mode and press multiplicity, for each key the calls strictly alternate between a down and an up of the same handler (as long as the key is not bound anew meanwhile), and a focus loss releases every handler that is down, also when it is interrupted and resumed.",
     ["histories", "configurations"], "All histories of key events.",
     "No existing test covers key bindings.",
     ["src/archon/render/impl/key_bindings.cpp", "src/archon/render/impl/key_bindings.hpp"], [("key slot state", "src/archon/render/impl/key_bindings.cpp")], observe=["handler invocations"])
prop("M01", "Matrix, vector, quaternion and rotation algebra is exact on whole numbers",
     "For all shapes and all components that are whole numbers, sums, products (scalar, inner, outer, cross, matrix), transposes, submatrices, rows, columns and diagonals, traces, comparisons and texts of vectors and matrices are exactly the algebraic ones, whether computed as new values or by compound assignment; determinants, inverses (also of triangular matrices), quotients and decompositions are the exact ones up to rounding; quaternions multiply by the rules of Hamilton and stand for the rotations they should; and rotations combine in the right order.",
     ["inputs", "histories"], "All shapes, whole number components and histories of modification.",
     "Tests use a few matrices.",
     ["src/archon/math/matrix.hpp", "src/archon/math/vector.hpp", "src/archon/math/quaternion.hpp", "src/archon/math/rotation.hpp", "src/archon/math/quaternion.cpp"], [("matrix operations", "src/archon/math/matrix.hpp"), ("quaternion product", "src/archon/math/quaternion.hpp")], observe=["operation results"])

check("K01", "TLA+ model of the test runner checked with TLC; recorded runs (model-generated completion orders and random) validated against it",
      "Exhaustive over all schedules of small configurations in the model; the code is bound by validating every recorded run (reporter callbacks, test bodies, summary) against the specification.")
check("C01", "TLA+ sequence specification and a design model of the circular storage, checked with TLC; recorded histories (one per storage transition of the model, and random ones with throwing constructors) validated against the specification",
      "The design model covers every placement of the contents up to the given allocation; every such transition is replayed on the code, under AddressSanitizer, with element objects tracked.")
check("C02", "TLA+ sequence specification and a design model of in-place/owned storage, checked with TLC; recorded histories (one per storage transition of the model, and random ones with throwing constructors) validated against the specification",
      "Every storage transition of the model up to the given capacity is replayed on the code, under AddressSanitizer, with element objects tracked.")
check("C03", "TLA+ specification of ordered (multi)maps and of the binary searches, checked with TLC; recorded histories of all four containers validated against it",
      "Lookups are validated for every key of small key ranges in every recorded state.")
check("C04", "TLA+ pointwise specification of range maps and a design model of cutting and filling, checked with TLC; recorded histories validated against the pointwise specification",
      "One script per transition of the design model is replayed on the code, also at the limits of the key type.")
check("C05", "TLA+ specification of memory streams checked with TLC; recorded histories validated against it",
      "Every history of the bounded model up to the given length is replayed on the code, under AddressSanitizer.")
check("C06", "TLA+ specification of a text file as one character file, with a buffering-layer design refining it, checked with TLC; recorded histories of twelve text file types validated against it",
      "One script per transition of the design model is replayed on all types with newline translation; random histories over all types, buffer sizes and modes; the bytes on disk are part of every recorded event.")
check("R01", "TLA+ specification of key bindings checked with TLC; recorded histories (one per transition of the bounded model, and random ones) validated against it",
      "Includes handlers that interrupt or fail, interrupted focus losses, and the multi-press time limit on both sides.")
check("C13", "TLA+ specification of wildcard languages and an automaton design refining it, checked with TLC; recorded builds and matches validated against it",
      "All pairs of patterns of up to three symbols over two letters, with all strings of up to four letters, and random pattern sets including extreme character values.")
check("C11", "TLA+ specification of exact integer arithmetic on unbounded integers (defined in TLA+ over base 2^15 parts, itself checked with TLC); recorded calls over all pairs of integer types validated against it",
      "Values at and around all limits of the types, powers of two, and random ones; single- and multi-part integers.")
check("U03", "TLA+ specification of exact geometry on unbounded integers, checked with TLC against sets of pixels; recorded calls validated against it",
      "Coordinates at and around the limits of the integer type, and boxes that touch or just miss each other.")
check("U01", "TLA+ specification of correct packings, and a design model (first fit into a tree of free areas) checked with TLC; recorded packing histories validated against it",
      "Every packing problem of the bounded model, and random histories of adding, packing and resetting for five integer types.")
check("U02", "TLA+ specification of closest point search, and a design model (pruned search in any tree arrangement) checked with TLC; recorded sorts and searches validated against it",
      "All multisets of points of small grids, with every query around them, and random point sets in up to five dimensions.")
check("D01", "TLA+ specification of the recovery of timestamps, and a design model of the estimate, checked with TLC; recorded histories validated against it",
      "All histories of small clocks, and random ones for widths from 1 to 64 bits with the second clock anywhere up to half a period off.")
check("I02", "TLA+ specification of images as planes extended by falloff, checked with TLC on small images; recorded histories of readers validated against it",
      "Every block position around all small images in all falloff modes, and random histories at positions up to the limits of the integer type; direct, indexed and tray images in three component representations, under AddressSanitizer.")
check("I03", "TLA+ specification of writing to images, checked with TLC on small images written to in every way; recorded histories of writers validated against it",
      "After every write, the whole image is part of the recorded event. Fills, blocks, masks and images, with opacity and blending of solid and transparent colors, at positions up to the limits of the integer type.")

check("I01", "TLA+ specification of the layout of pixels in memory for every kind of pixel format, checked with TLC over all small formats; recorded histories of writes, fills and reads on real images in 58 formats, with the raw memory, validated against it",
      "whole buffer compared bit by bit after every change, including unused bits; components that take part in a conversion of width are those where bit repetition is exact or the floating-point extremes")
check("I04", "TLA+ specification of the layout of pixels in memory; recorded recasts of random buffer formats validated against it, bit by bit",
      "try_cast_to(PackedFormat) is unimplemented upstream and left out")
check("C07", "TLA+ contract of one call of a codec (the set of stops it may make, shift states and replacements included), checked with TLC to give the same outcome for all ways of cutting input and output; recorded calls and whole texts validated against it",
      "All inputs of up to three (thorough: five) representative units with all cuts on the model; sequences of up to three (thorough: four) fragments and random ones on the real codecs with random cuts, in the encodings of the locales C and C.utf8, a stateful encoding supplied as a facet, and char; texts that straddle the internal buffers. The C++ library's facet takes an incomplete UTF-8 sequence followed by a null character for valid: such input is left out.")
check("C08", "TLA+ definition of the encoding forms (decoding by way of encoding) with incremental conversion checked with TLC over all cuts; recorded conversions validated against it",
      "All sequences of up to three (thorough: four) representative units in all six conversions and variants, random valid and damaged text, random cuts of input and output, exact allocations under AddressSanitizer.")
check("C09", "TLA+ definition of Base64 (valid texts are those that some byte sequence encodes to) checked with TLC; recorded encodings and decodings, whole and in pieces, validated against it",
      "All texts of up to four (thorough: five) characters of eight representative ones in all decoder configurations; random bytes and damaged texts; random cuts of input and output. The wide character variants do not compile upstream and are left out.")

check("C14", "TLA+ definitions of wrapping, of the greedy and the best wrapping, and of the layout of lines, the former checked with TLC over all small texts and geometries; recorded wrappings and formatted texts validated against them",
      "All texts of up to three words with odd sizes on all geometries of two objects; random texts of up to 25 words and 5 geometry objects; formatter with random formats that change between lines, text submitted in random pieces, both word wrappers, char and wchar_t. Sections, holding and jumping, and text styles are left out.")

check("C15", "TLA+ definition of templates and their expansion (parsing stated as the existence of a split into text and references) checked with TLC to be unambiguous; recorded parses and expansions validated against it",
      "All texts of up to five characters of the significant ones with fixed parameter sets; random templates, parameters and locales. The locale need not outlive the parser.")
check("U04", "TLA+ definition of CSS color notation, checked with TLC for all formatted colors; recorded parses, formats and lookups validated against it",
      "All short sequences of significant pieces, all hexadecimal forms over representative digits, all functional forms over representative parts; random colors and texts. Odd number notations and inner spaces, of which the documentation says nothing, are left open.")
check("M01", "TLA+ definition of the algebra, checked with TLC against the algebraic laws (multiplicative determinant, adjugate, norm, rotation matrices); recorded operations and histories of in-place modification validated against it",
      "Shapes of one to five rows and columns, component types float, double and long double and mixtures, whole numbers from -9 to 9 and what comes of them; rotations by quarters of a turn.")
check("C12", "TLA+ definitions of numbers and lists as text and of quoting, checked with TLC (what is written reads back, quoted forms are unique and fit); recorded formattings and parses validated against them",
      "All short texts over significant characters as integers and as lists, all short strings quoted; random values of integer types from 8 to 64 bits in bases 2 to 36, list formats, brackets, separators and elisions, escapes in char and wchar_t. Character set tables other than ASCII, and the target's state after a failed parse of a class type, are left out.")
check("P01", "TLA+ definition of command line patterns, their meaning and the assignment of arguments to function parameters, checked with TLC on all short patterns and words; recorded runs of the real processor validated against it",
      "All short patterns, and pairs of patterns, on the model (automaton agrees with meaning, ambiguities are what they are said to be); on the code, random patterns for 42 function signatures with random argument lists. Precedence of keywords over values is by symbol; with cross-pattern ambiguity allowed, a delegating pattern may win on a prefix.")
check("P02", "TLA+ definition of the command line processor (options, clusters, arguments, stop, short circuit, delegation, errors), checked with TLC on all short command lines; those replayed into the real processor and random ones recorded, validated against it",
      "All command lines of two (thorough: three) arguments out of 19 for three specifications, replayed; random specifications with random options, actions (assign, raise, exec, conditional ones) and argument lists. Texts of errors are not compared, only which argument and which kind.")
check("P03", "TLA+ definition of pattern syntax and of the three ambiguities, checked with TLC on all short patterns; those replayed into the real specification parser and random ones recorded, validated against it",
      "All pattern texts up to 6 (thorough: 7) tokens and pairs of up to 5 (6) tokens, replayed; random specifications with patterns, options, attributes and functions, good and bad.")
check("L01", "TLA+ definition of what becomes of a message, checked with TLC against a walk down through all small arrangements of loggers; arrangements replayed and random ones recorded on the real loggers, validated against it",
      "All arrangements of three (thorough: four) loggers on two roots on the model, of two replayed and larger ones sampled; random arrangements of up to 12 loggers on custom, stream, file and null roots, char and wchar_t. ASCII only; two rules for the same channel in one logger are unspecified.")
check("L02", "TLA+ model of threads logging through a shared sink, refinement of the locking algorithm checked with TLC; schedules from the model imposed on real threads and random schedules and free runs recorded, validated against the model",
      "All schedules of two threads with two or three messages and of three threads with one (thorough: two) on the model; sampled schedules on the real loggers with up to 4 threads, free runs with up to 6 threads. A scheduler stops threads where text is formatted (in and out of the lock), not between single instructions.")
check("K02", "TLA+ definition of filters, orders and selection, checked with TLC against the reading and insertion algorithm; selections from the model replayed and random ones recorded on the real filter, order, runner and command line tool, validated against it",
      "All small filters, orders and tests on the model, larger ones sampled; up to 20 tests, 3 repetitions and 4 threads on the real code. Only spaces separate words; a second separator is unspecified.")
check("K03", "TLA+ definition of the text and XML reports of a run from what happens in it, checked with TLC against threads that report under one lock, for all interleavings; orders of failures from the model replayed and random runs recorded on the real runner and reporters, validated against it",
      "Two tests by two threads with up to two failures each on the model, longer ones sampled; runs of up to 11 tests, 3 repetitions and 12 threads on the real code, with failures from inner threads, all kinds of messages, trails and log files. Times and line breaks in texts are left out.")
check("C10", "TLA+ models of files, handles, positions, modes and locks, and of which handle owns and closes which descriptor, checked with TLC; histories from the model replayed and random ones recorded on the real file handles, validated against it",
      "Histories over up to four handles on two files with all modes, with operations load, save, touch, resize, seek, lock, moves, and with system calls that are interrupted, fall short or fail (imposed by wrapping them). The state of a handle after a failed open, and locking through an empty handle, are unspecified.")

check("I05", "TLA+ definition of the picture that a PNG file is of (interlacing, filters, samples, palettes, transparency), checked with TLC to invert encoding; files generated from it loaded, and random loads, saves and damages recorded and validated against it",
      "Files of pictures of all kinds up to 5x5 (thorough: 9x9) loaded; random files up to 34x34, images of 57 pixel formats and three kinds of trays and indirect color saved and loaded again, large ones for progress; cuts, bit and byte changes, failing sources, sinks and trackers at random positions. Pixel formats with depths other than 1, 2, 4, 8 and 16 bits are compared as they are read in the transfer representation; gray of 3 bits is left out.")
check("I06", "TLA+ definition of registration and detection, checked with TLC against the staged procedure; small registries and questions replayed and random ones recorded with formats that note what is asked of them, validated against it",
      "All registries of two formats with all questions on the model, three with a reduced choice, a part of them replayed; random registries of up to 7 formats. A failing source during detection is unspecified.")
