"""Regenerates /verif/properties.jsonl (the list is written here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=files[0] if len(files) == 1 else ", ".join(files[:3])) for m in mechanism.split(";")])))

NAF = ["nappy/na_file/na_file.py", "nappy/na_file/na_core.py"] + \
      ["nappy/na_file/na_file_%d.py" % f for f in (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)]
NC = ["nappy/nc_interface/nc_to_na.py", "nappy/nc_interface/xarray_to_na.py",
      "nappy/nc_interface/na_content_collector.py", "nappy/nc_interface/xarray_utils.py"]
TONC = ["nappy/nc_interface/na_to_nc.py", "nappy/nc_interface/na_to_xarray.py", "nappy/nc_interface/xarray_utils.py"]

p("C01", "Writing then reading a NASA Ames file gives back the same content",
  "For every supported file format index (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010), writing a valid contents dictionary "
  "to a NASA Ames file with a white-space delimiter and reading that file back gives the same contents: every header item, every text line "
  "(up to surrounding white space), every independent, auxiliary and primary value in its place, in the documented array shape and order. "
  "Data values and header axis values may differ only by the rounding of the chosen float format; scale factors, missing values, "
  "increments and all counts are exact.",
  ["inputs"], "All valid contents dictionaries of the nine FFIs: any number of variables, auxiliary variables, marks, bounded sizes, comment lines, texts and finite numbers; all white-space delimiters and float formats.",
  "The tests read and rewrite one fixed example file per FFI and look at a few items; sizes, shapes, values and texts outside those files are never tried.",
  NAF + ["nappy/utils/text_parser.py", "nappy/utils/list_manipulator.py"],
  "per-FFI writeHeader/writeData against readHeader/readData, sharing the list order convention (slowest dimension first in memory, fastest first on file)")

p("C02", "Every file written conforms to the NASA Ames format specification",
  "Every NASA Ames file the package writes (from a contents dictionary) can be parsed record by record by an independent strict "
  "implementation of the Gaines and Hipskind (1998) layout for its FFI, which recovers the same contents and leaves nothing over. "
  "In particular the first number on the first line equals the actual number of header lines, all declared counts match what follows, "
  "and primary values are recorded in the order the format defines.",
  ["inputs"], "All valid contents dictionaries of the nine FFIs, with any (even wrong) declared header length in the dictionary.",
  "Tests only check that the package's own reader accepts its own output, so a symmetric error in reader and writer is invisible; no test looks at record structure.",
  NAF + ["nappy/utils/list_manipulator.py"],
  "writeHeader/_fixHeaderLength/writeData lay out records; no validation of the result")

p("C03", "Any legal layout of a NASA Ames file is read to the same content",
  "Reading a file that conforms to the format specification recovers exactly the recorded contents, however the text is laid out: numeric "
  "records wrapped over several lines, any amount of blanks or tabs, any number notation, trailing {annotations} on header lines, "
  "blank lines at the end of file, either line ending, and a given number of extra lines before the header which the caller asks to ignore "
  "(and which are reported back).",
  ["inputs"], "All legal files of the nine FFIs as produced by an independent writer with arbitrary layout decisions.",
  "The example files exercise one layout each; wrapping, notation and annotation positions are combinatorial.",
  NAF + ["nappy/utils/text_parser.py", "nappy/utils/right_strip.py"],
  "text_parser item readers over lines; readData slices the file after the header and consumes records")

p("C04", "Reading and writing have no side effects and are repeatable",
  "Writing a contents dictionary leaves every item of it unchanged (other than filling in an absent format index), so that writing it again, in any "
  "order with other writes, produces byte-identical files. Reading the data section again, or reading the same file through a second "
  "object, gives equal contents, and contents obtained from one file object are never altered by operations on others. A dictionary handed to an open writer is written as it was when it was handed over.",
  ["histories", "inputs"], "All sequences of writes and reads over a set of contents dictionaries of all FFIs.",
  "Tests write each dictionary once and read each file once; in-place reversal or accumulation only shows on the second use.",
  NAF + ["nappy/nappy_api.py"], "file classes share list objects with the caller's dictionary; readData fills lists that must be reset")

p("C05", "Presentation options change presentation only",
  "The delimiter, annotation and header-suppression options never change the content: an annotated file is the plain file with one extra leading "
  "column whose label names the header item, a header-less file is exactly the data section of the full file, and a file with another delimiter has the same items in "
  "the same lines. Converting a NASA Ames file to CSV gives the same header lines and data items separated by commas, at the predicted file name, honouring "
  "the annotation and header options.",
  ["inputs", "configurations"], "All contents of all FFIs and all combinations of delimiter, float format, annotation and no_header.",
  "Tests convert a few files with one combination and check that the file exists.",
  NAF + ["nappy/nappy_api.py", "nappy/utils/common_utils.py", "nappy/utils/list_manipulator.py"],
  "write() passes delimiter/annotation to each line writer; annotateLine(s)/getAnnotation prepend the label")

p("C06", "Damaged NASA Ames files are rejected, never misread and never hang",
  "Opening and reading a damaged NASA Ames file always terminates promptly, with an ordinary exception or with contents of the declared "
  "shape. Files whose header is cut short, whose first line is not a header length and a supported format index, whose numeric records hold a non-number, too many or too few items, whose declared integers are fractions or declared counts negative, "
  "or that have a blank line inside the data section, are rejected with an exception.",
  ["inputs"], "All truncations and all single-token or single-line corruptions of valid files of all FFIs.",
  "Tests read only well-formed files; there is no test with a corrupt file.",
  NAF + ["nappy/utils/text_parser.py", "nappy/utils/common_utils.py"],
  "readItems* count checks, _checkForBlankLines, readFFI")

p("C07", "Metadata accessors agree with the recorded header",
  "For every file, the accessor functions report exactly what the header records: each variable's name, units, missing value and scale factor, in order, for primary, auxiliary and independent variables, "
  "and originator, organisation, source, mission, volumes, dates, comments and header length. A name of the form 'text (units)' is split into name and units, "
  "at its last parenthesised part, or by the user's own callback or pattern when given. Item access by NASA Ames name returns the same values as the contents dictionary.",
  ["inputs"], "All files of all FFIs, all variable name strings, all user patterns and callbacks.",
  "Tests check a handful of literal names from the example files.",
  ["nappy/na_file/na_core.py", "nappy/nappy_api.py"], "NACore accessors index VNAME/VMISS/VSCAL/ANAME/AMISS/ASCAL/XNAME and split units with a regex or callback")

p("C08", "A file object writes one dictionary once and refuses every other write",
  "A file object opened for writing accepts exactly one successful write, refuses any further write and any write after it is closed, and a file object "
  "opened for reading refuses to write; every refused operation raises and leaves the file content exactly as it was. "
  "A write that fails because of its contents raises, leaves nothing of them in the file and does not count, so that the write can be repeated with correct contents. "
  "Once a write returns, the complete file is on disk even if the object is never closed, leaving a with-block closes the file, and closing again is harmless.",
  ["histories"], "All sequences of open, write, read, close and with-block operations on several objects and files.",
  "Tests never attempt a second write, a write after close, or reading a file before the writer closes it.",
  ["nappy/na_file/na_file.py", "nappy/nappy_api.py"], "mode/is_open/data_written flags in write(); flush after write")

p("C09", "The file format index is identified correctly",
  "The format index reported for a file is the one recorded in its first header line, whatever follows and however many leading lines are ignored. "
  "The index chosen for a contents dictionary that does not name one is the one whose structure the dictionary has, so writing it that way and reading it back preserves the contents; "
  "dictionaries with more than four independent variables are refused, and an index recorded in the dictionary is always honoured.",
  ["inputs"], "All contents dictionaries of all nine FFIs with the index removed, and all files written from them.",
  "Tests only check the index of the example files.",
  ["nappy/utils/common_utils.py", "nappy/nappy_api.py"], "readFFI, chooseFFI, openNAFile, getNAFileClass")

p("C10", "Conversion to NetCDF preserves all data and metadata",
  "Converting a NASA Ames file (FFI 1001, 1010, 1020, 2010, 3010, 4010) to NetCDF yields one variable per primary and auxiliary variable holding recorded value times scale factor at the same coordinates, "
  "with missing values marked missing and every other value present, units and names carried over, and one coordinate per independent variable with all of its values (including implied ones). "
  "Header texts, volumes, dates and comment lines appear in the documented global attributes; user-supplied attributes, selections of variables, renamings and time units take effect; other FFIs are refused with a clear error.",
  ["inputs", "configurations"], "All files of the convertible FFIs and all combinations of conversion options.",
  "Tests convert five example files and mostly check that the output exists.",
  TONC + ["nappy/nappy_api.py"], "NADictToXarrayObjects builds DataArrays; _normalizeIndVars expands implied axes; writeNCFile writes the Dataset")

p("C11", "NASA Ames to NetCDF and back preserves the data",
  "Converting a NASA Ames file to NetCDF and converting the result back gives NASA Ames files in which every primary and auxiliary variable reappears with its scaled "
  "values at the same axis values, missing values still missing, in the original order, and with the original comment lines, originator, source, mission and date.",
  ["inputs"], "All files of the convertible FFIs with distinct variable names.",
  "One test compares one example file with a stored output; the composition over shapes, scalings, missing values and orders is unexplored.",
  TONC + NC, "nasa_ames_var_number attributes order variables; comment partition markers separate special and normal comments")

p("C12", "Conversion from NetCDF conserves every variable",
  "Converting a NetCDF file writes every selected numeric data variable exactly once across the output NASA Ames files, as a primary or auxiliary variable with its name and units, with every value, "
  "missing values replaced by the declared missing value, and every coordinate of its dimensions in the right order and an interval that fits them; scalar variables are reported with their value in the special comments. "
  "Variable selections and exclusions are applied exactly, bounds variables and arrays of text are left out, and nothing is written twice or dropped.",
  ["inputs"], "All NetCDF files with any set of numeric variables of rank 0 to 4 over shared, differing and overlapping dimensions.",
  "Tests convert a few fixed files; grouping of variables over files depends on the combination of shapes and axes.",
  NC + ["nappy/nappy_api.py"], "NAContentCollector sorts variables into primary/auxiliary/unused; XarrayToNA loops over unused variables")

p("C13", "NetCDF metadata arrives in the right NASA Ames header lines",
  "In every NASA Ames file written from NetCDF the first valid date is the calendar date of the first time value, the revision date is the date of conversion, global attributes appear in the mapped header lines or in the comments, and variable "
  "attributes appear in the special comments; the last normal comment line of an FFI 1001 file names the columns of its data section and the conversion is added to the history. User overrides replace the originator, organisation, source, mission, dates and names and insert comments; "
  "the declared comment counts and header length stay exact whatever characters the attributes contain.",
  ["inputs", "configurations"], "All NetCDF files with any text or number attributes, any time units and calendars and any overrides.",
  "Tests check one file's header by eye or not at all; attribute text with line breaks and non-standard calendars are not tried.",
  NC, "_defineNAGlobals/_defineNAComments/_defineGeneralHeader, writeNAFiles overrides")

p("C14", "Splitting by size limit partitions the data exactly",
  "When a row limit is given for an FFI 1001 output, the data are divided into consecutive files of at most that many rows which together hold every row exactly once, in order, "
  "each with the complete header, the right volume number and the right total number of volumes. The list of files returned is the list of files written, each once; outputs within the limit and other FFIs are not split.",
  ["inputs"], "All row counts, row limits, numbers of variables and presentation options.",
  "No test uses the size limit on a file that is actually split and reads the pieces.",
  ["nappy/nc_interface/xarray_to_na.py", "nappy/utils/common_utils.py", "nappy/nappy_api.py"], "_writeNAFileSubsetsWithinSizeLimit, modifyNADictCopy")

p("C15", "Output file names are predicted correctly and never collide",
  "The names-only mode returns exactly the names that the conversion would then write, without writing anything; the conversion writes exactly the files it returns and no others. "
  "The names derive from the given or default base name with a running number when several files are needed, are pairwise distinct, and default names replace the extension of the input name.",
  ["inputs", "configurations"], "All NetCDF files needing one or several outputs, all output names and locations.",
  "Tests use single-output files and one naming pattern.",
  ["nappy/nc_interface/xarray_to_na.py", "nappy/nappy_api.py", "nappy/utils/common_utils.py"], "constructNAFileNames, getFileNameWithNewExtension")

p("C16", "A requested output format is honoured exactly or refused",
  "When the user requests an FFI for a conversion from NetCDF, either every file written for the data has that FFI and holds the same data values and axis values as the default output, "
  "or the conversion is refused with an error; the result never silently has another FFI and never silently loses data. "
  "The FFI that the default output has, and 2010 and 2110 (with an evenly spaced second axis also 2310) for variables on one two-dimensional grid, are never refused.",
  ["inputs", "configurations"], "All NetCDF files and all requested FFIs.",
  "Tests request one or two FFIs on one file.",
  NC, "_decideFileFormatIndex, _defineNAVars re-layout for 2110/2310/1020")

p("C17", "The command-line tools do what the API does with the same options",
  "Each command-line tool (na2nc, nc2na, nc2csv) with any combination of its documented options produces the same files with the same content as the corresponding API call with the corresponding arguments, "
  "and bad or missing options end with a usage message and no output. A successful run lists the files and, of an installed tool, ends with success status.",
  ["inputs", "configurations"], "All combinations of documented options and values on any input file.",
  "Tests call each tool with one or two option sets.",
  ["nappy/script/na2nc.py", "nappy/script/nc2na.py", "nappy/script/nc2csv.py", "nappy/nappy_api.py"], "getopt parsing into arg_dict and forwarding to convert* functions")

p("C18", "Conversions are independent of what ran before and keep inputs intact",
  "The outcome of any conversion, read or write depends only on its own arguments and input files: in any sequence of calls in one process, with any mixture of options, each call gives the output it gives in a fresh process. "
  "No call modifies its input file, its argument objects or the shared configuration.",
  ["histories"], "All sequences of API calls with varied options and inputs.",
  "Tests are independent single calls; state leaking through module globals, default arguments or cached configuration only shows in sequences.",
  NC + TONC + ["nappy/nappy_api.py", "nappy/utils/parse_config.py"], "cached configuration dictionaries, default arguments, shared lists")

p("C19", "File comparison reports identity and every difference",
  "Comparing two NASA Ames files reports them the same when they are identical or, in the default number-aware mode, differ only in number formatting or in the stated delimiters, and reports a difference whenever any header "
  "line or data item of the compared sections differs. Strict mode also reports formatting differences, and approximate mode accepts exactly the numeric differences below the threshold. Comparing directories shows every pair of lines that differ, every item found on one side only, and differing lengths.",
  ["inputs"], "All pairs of files obtained by rewriting or by changing one or more items.",
  "Tests compare a few files with themselves.",
  ["nappy/utils/compare_na.py", "nappy/utils/compare.py"], "compNAFiles splits header and body and compares line by line")

p("C20", "Axis tests decide compatibility correctly",
  "Two axes are treated as identical exactly when their names, units, lengths and all values agree; an axis is uniformly spaced exactly when it equals the evenly spaced sequence between its end points; "
  "and one axis is a regular subset of another, whatever they are called, exactly when their units agree and the other has n times as many values, of which it holds every n-th starting with the first, n being reported.",
  ["inputs"], "All pairs of axes of any length with any pattern of equal and differing values.",
  "Tests use two or three hand-made axes.",
  ["nappy/nc_interface/xarray_utils.py"], "areAxesIdentical, isUniformlySpaced, isAxisRegularlySpacedSubsetOf")

p("C21", "In-memory and file based interfaces agree",
  "Reading a NASA Ames file into in-memory array objects, fetching a single variable by index or name, writing in-memory objects or a contents dictionary to file, all give the same variables, "
  "values, coordinates and attributes as the corresponding file to file conversion. Appending to an existing NetCDF file adds the new variables and keeps the old ones.",
  ["inputs", "configurations"], "All convertible files, all variables of them, all sets of in-memory objects.",
  "Tests cover one call of some of these functions on one file, and none of others.",
  TONC + NC + ["nappy/nc_interface/xarray_objs_to_na_files.py", "nappy/nappy_api.py"], "readXarrayObjectsFromNA, getXarrayVariableFromNA, convertXarrayObjectsToNA/CSV, writeNADictToNC")

p("C22", "Local configuration files take effect exactly as documented",
  "With a user-supplied annotations file the labels of annotated output are those of that file, and with a user-supplied attributes file the header items it lists are put into every NASA Ames file converted from NetCDF unless the caller overrides them. "
  "Without such files the packaged defaults apply; nothing else in the output depends on them.",
  ["configurations"], "All well-formed user configuration files and all files converted under them.",
  "The configuration is read once per process from the package; tests never set it.",
  ["nappy/utils/parse_config.py", "nappy/utils/common_utils.py", "nappy/nc_interface/xarray_to_na.py"], "NAPPY_ANNOTATIONS and NAPPY_LOCAL_ATTRIBUTES environment variables")

p("C23", "Translating contents to another format keeps the data",
  "Translating a valid FFI 2010 contents dictionary to FFI 2110 gives a valid FFI 2110 dictionary with the same header items, auxiliary variables and values, "
  "in which every mark carries all values of the bounded axis (those implied by first value and increment included) and their number as first auxiliary variable; "
  "the given dictionary stays as it was, and later changes to either in place do not reach the other.",
  ["inputs"], "All valid FFI 2010 contents dictionaries, with and without auxiliary variables and implied axis values.",
  "No test imports the translator.",
  ["nappy/utils/ffi_translator.py", "nappy/na_file/na_file_2110.py", "nappy/na_file/na_file_2010.py"],
  "translate2010To2110")

p("C24", "Independent calls from several threads do not disturb one another",
  "Calls made at the same time in several threads of one process, each on its own contents dictionary and its own output files, return the same results, "
  "raise the same errors and write the same files as each of them run alone, for every interleaving of the threads.",
  ["schedules", "inputs"], "All pairs and triples of read, write, conversion and listing calls, and all interleavings of their steps.",
  "No test uses a thread; a fault shows only under particular interleavings.",
  ["nappy/utils/text_parser.py", "nappy/utils/common_utils.py", "nappy/utils/list_manipulator.py", "nappy/na_file/na_file.py", "nappy/nc_interface"],
  "state shared between calls: class lookup, configuration, manipulators, caches")

p("C25", "Output that cannot be written completely is reported",
  "A call or tool that writes NASA Ames, CSV or annotated output and cannot write it completely (the disk fills up at any byte, the folder is missing, the name is taken by a folder) "
  "raises or ends with a failure status instead of reporting success; its input files and all other files stay as they were, and the same call made again "
  "once the obstacle is gone gives the same files as a call that was never disturbed. NetCDF output on a full disk is left to the NetCDF library and excluded.",
  ["fault_sequences", "inputs"], "All points at which the disk can fill up, all unusable output places, and all calls that write text output.",
  "No test lets a write fail.",
  ["nappy/na_file/na_file.py", "nappy/nc_interface/nc_to_na.py", "nappy/nappy_api.py", "nappy/script"],
  "write, flush, close and their error paths")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
