PROPS = {
"C01": """Generated: contents dictionaries of every FFI (counts from the edges up, unicode and punctuation texts, edge-biased finite numbers), float formats, white-space delimiters.
Oracle: round trip. Every item of the dictionary is compared with what the reader returns: texts up to surrounding white space, counts, scale factors, missing values exactly, data
and axis values within the rounding of the format (and exactly with %s and %.17g).""",
"C02": """The same generator, with any declared NLHEAD. Oracle: `spec.parse`, an independent strict parser of the 1998 layout: header length equals number of header lines, counts match, records
start on new lines, nothing is left over, order is that of the format definition; the recovered contents equal the dictionary. A symmetric reader/writer error is visible here only. The sub-check
`rewritten` reads files of any legal layout (also with ignored leading lines), edits the contents in memory as users do and writes them again, also over the input file.""",
"C03": """Generated: contents plus a tape of layout decisions for `spec.emit` (wrapping of numeric records, blanks and tabs, number notations, annotations in braces, blank lines at the end,
line ends, lines before the header). Oracle: nappy's reader must give the recorded contents and report the ignored lines.""",
"C04": """Histories of writes and reads over several dictionaries and objects. Oracle: deep copies of the dictionaries before, byte equality of files written again, equality of repeated reads and of
snapshots of contents obtained from other objects.""",
"C05": """Metamorphic: plain, annotated, header-less and differently delimited outputs of the same contents are compared line by line; labels against the packaged labels file; CSV conversion
against the file it comes from, including the predicted name; conversions from NetCDF and from objects likewise.""",
"C06": """Mutation of legal files (made by the independent emitter): header cut at any line, unusable first line, a number replaced by junk, surplus or missing item, blank line in the data, incomplete
last mark: must raise. Free edits (1-4 random changes) must end within a CPU limit with an ordinary exception or contents of the declared shape. The mutation classes are chosen so that rejection is unambiguous.""",
"C07": """Generated names with nested, repeated and unbalanced parentheses, user patterns and callbacks, all FFIs. Oracle: own split at the last parenthesised part (a hand-written scanner,
no regular expression), own record of the contents.""",
"C08": """Stateful: 4-16 operations on up to three paths interpreted against a model of the files' contents and of each object's state, judged after every operation (file bytes, exceptions).""",
"C09": """First lines of any index with any continuation, ignored lines; dictionaries of all FFIs with the index removed (written, read back and compared), more than four independent variables, left-over items.""",
"C10": """Files by the independent emitter in any legal layout, with selections, renamings, attributes and time units; the NetCDF is read back raw with netCDF4 and compared with `ncmodel`'s expectation (coordinates
including implied values, scaled values, missing marks, units, attributes, comment order).""",
"C11": """Files -> NetCDF -> files. Oracle: each variable (own identification by name) with its scaled values at its axis values, missing marks, order, comments, originator, source, mission, date.""",
"C12": """Datasets of ranks 0 to 4 over shared, differing, overlapping and every-nth axes, dtypes, fill values, packing (also of coordinates), second missing values, dimensions without coordinates, arrays of text, bounds, selections and exclusions. Oracle: multiset matching of
output variables (parsed by `spec.parse`) to selected dataset variables - each exactly once - with values, declared missing value, units and axes; scalars in the special comments; files on disk equal the list returned.""",
"C13": """Datasets with global/variable attributes with line breaks of all kinds, numbers, attributes from earlier conversions, calendars, overrides. Oracle: own calendar arithmetic for the first date, mapped
header lines, comment lines in order, strict parse of the header (counts stay exact), column line, overrides at the start of the comments.""",
"C14": """Row limits around the number of rows with all options. Oracle: parts compared line by line with the unsplit output; volume numbers; returned list against the directory.""",
"C15": """Names-only mode against the conversion, directory listings before and after; input and output names with dots, directories, other extensions.""",
"C16": """Any requested FFI for any dataset. Oracle: each accepted output has that FFI and holds the same variables, values and axes as the default output (conservation oracle of C12); doubtless
requests must not be refused; refusals leave no wrong file behind.""",
"C17": """Tools run in-process in three ways (function with arguments, module as a script, installed entry point with sys.argv) with any options in any order, against the API call with the corresponding arguments
in another directory; wrong or missing options must end with usage and without output; exit status.""",
"C18": """Sequences of 2-6 calls of the whole API on shared files, arguments and convertor objects in one forked process, each compared (result, files, exceptions) with the same call in a fresh fork that has another hash seed;
arguments, input files, current directory, configuration dictionaries and process settings must stay as they were.""",
"C19": """Pairs made from one file by reformatting (same), editing (different), format edits (strict), scaled edits (approximate). Oracle: own tokenwise comparison; result value and printed reports.""",
"C20": """Axes of eighths (exact in every representation) and times, identical or changed by one edit, every-nth subsets, tiny deviations of one unit in the last places. Oracle: exact rational comparison in Python.""",
"C21": """Differential: the same content through file conversion and through memory (objects, single variables, dictionaries, appending; a dataset against its variables in their order), compared variable by variable including attributes, coordinates and encodings.""",
"C22": """Generated annotations and attributes files (layouts, comments, case, percent signs), set by environment variables for fresh processes that write and convert several files. Oracle: own parser of the
configuration files; labels and header items; everything else equals the output without them.""",
"C23": """FFI 2010 contents (from a dictionary, without the auxiliary items, or read from a file of any layout) are translated to 2110 and written. Oracle: `spec.parse` of the result against
the contents before: same header items and values, each mark with the whole bounded axis, implied values included; the count as first auxiliary variable; the given dictionary unchanged, also when every list of the translated contents is altered in place afterwards (and the other way round).""",
"C24": """Two or three calls (reading, writing, conversions both ways, listing, overlap comparison) run in threads under a scheduler of the check (`vp/sched.py`): a trace function on the
threads hands the turn over at generated lines of nappy's code, so that the interleaving is an input that shrinks and replays. Oracle: results, errors and output files of the same calls run one after
another. A thread that waits for a lock loses its turn. One part runs the threads as the first calls of a
process (a fork in which nappy has only just been imported anew), where caches are not filled yet. Reaches shared state (class lookup, caches, module-level helpers) that no sequential test can disturb; bounded to the granularity of source lines and to calls on separate output files.""",
"C25": """A generated call or tool runs while the file size limit of the process (RLIMIT_FSIZE) is set to a generated byte of its output, or with its output folder missing, or its
output name taken by a folder. Oracle: the same call undisturbed. The disturbed call must raise or exit with a failure status whenever its files differ from the undisturbed ones; inputs and bystanders keep their bytes; repeating the call
without the obstacle gives the undisturbed files.""",
}
