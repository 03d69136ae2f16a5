#!/usr/bin/env python3
"""Writes known_findings.json from the list below (edited by hand; no check writes it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C01", "a5ea57e", "writing a file whose header name lines are blank raised an exception"),
 ("C04", "2afc8d1", "writing 2010/2110/2160/2310 reversed the DX, NX or XNAME list of the caller's dictionary"),
 ("C01", "c4bab10", "FFI 3010/4010 axes were read with the wrong number of defined values"),
 ("C06", "e8407d4", "truncated headers looped for ever; surplus items of a numeric record were silently dropped"),
 ("C01", "a91d79a", "FFI 2310 files were written in a layout that neither the format nor the reader knows"),
 ("C04", "fd5e5a7", "reading the data section twice appended to the axis read before (2010, 3010, 4010, 2310)"),
 ("C01", "31fa666", "FFI 2160: site names with blanks, integer LENX and files without character variables could not be read"),
 ("C01", "f9a7e30", "FFI 2160: character missing values with blanks were read as several values"),
 ("C09", "1a7a7f5", "readFFI without a second argument failed"),
 ("C09", "832364e", "chooseFFI failed on data with a single mark and chose 2110 for files of another structure"),
 ("C05", "13b82aa", "convertNAToCSV ignored no_header"),
 ("C15", "9194f27", "convertNCToCSV ignored the output name given and did not use commas"),
 ("C15", "b839514", "default output names of files whose name holds further dots or another extension were wrong"),
 ("C06", "96511e2", "negative numbers of records or values were accepted"),
 ("C10", "fa31874", "refusing an unsupported format for NetCDF raised an unrelated error"),
 ("C10", "4b57765", "FFI 1020 files could not be converted to NetCDF (implied axis values left out)"),
 ("C10", "6565984", "missing values of scaled variables were no longer missing in NetCDF"),
 ("C10", "fb426c3", "variables sharing a name replaced each other in the NetCDF file"),
 ("C10", "31851f8", "variables without a name could not be converted to NetCDF"),
 ("C10", "46a0e80", "variables whose names consist of digits could not be selected by name"),
 ("C10", "cc519b6", "selecting an unknown auxiliary variable was silently ignored"),
 ("C21", "9245751", "time axes with unknown units waited for keyboard input and failed without one"),
 ("C10", "04fc0b1", "empty text attributes made the conversion to NetCDF fail"),
 ("C21", "b24be1b", "writeNCFile ignored the append mode"),
 ("C21", "00f41c8", "writeNADictToNC never worked"),
 ("C21", "8bbcc74", "convertXarrayObjectsToNA never worked and ignored size_limit"),
 ("C12", "c973741", "variables sharing a nasa_ames_var_number lost all but one"),
 ("C12", "43b645f", "auxiliary variables of FFI 1020 were taken for regular subsets when they were not"),
 ("C12", "fb51ca3", "time axes of any name, without reference time or held as datetime64 made the conversion fail"),
 ("C13", "b70e01b", "DATE ignored the calendar of the time axis"),
 ("C16", "0ac6582", "time axes in second place and requests for 2110 or 2310 failed"),
 ("C12", "b7a2344", "a fill value that is not a number was written into the header"),
 ("C22", "a5d8133", "a local nc_attributes section raised an error"),
 ("C13", "104afed", "numeric global attributes were dropped"),
 ("C13", "79749c6", "line breaks in names and titles broke the header"),
 ("C12", "80c6c4a", "scalar variables were dropped when there were no other special comments"),
 ("C12", "dc0beff", "missing values in the data differed from those declared"),
 ("C15", "104ef7f", "running numbers were put into the wrong place of output names"),
 ("C14", "718d464", "files split by a size limit lost or repeated rows and had wrong volume numbers"),
 ("C18", "28b10b7", "writing the same conversion twice gave different files"),
 ("C13", "a59bba5", "overriding items that are lists or comments corrupted them"),
 ("C18", "05dc7bb", "the order of auxiliary coordinates changed from run to run"),
 ("C20", "f08fd76", "areAxesIdentical took axes sharing one value for identical"),
 ("C12", "33a6a55", "an empty long_name lost the name of a variable"),
 ("C12", "a6b2be9", "scalar times and strings made the conversion fail"),
 ("C13", "be6cc7b", "DATE could not be overridden when the file has first_valid_date_of_data"),
 ("C12", "25ff9da", "scalar coordinates of the kind of an axis made the conversion fail"),
 ("C12", "a1a0319", "scalar variables named like an axis made the conversion fail"),
 ("C11", "d3f8781", "DATE of a file without reference time was lost on the way through NetCDF"),
 ("C11", "de17404", "missing values of variables holding times made the conversion fail"),
 ("C15", "1fa4a33", "the mode that only lists names left out the parts of split files"),
 ("C17", "bfec235", "option -l of nc2na and nc2csv failed"),
 ("C17", "710320b", "invalid option values ended in a traceback"),
 ("C17", "0bec1a9", "na2nc did not use the default output name"),
 ("C17", "f9e2d01", "nc2csv wrote blanks instead of commas and a .na file"),
 ("C17", "83830f9", "a tab could not be given as delimiter"),
 ("C17", "80ea51f", "the installed tools ended with a failure status after success"),
 ("C18", "c6995ef", "NetCDF files stayed open after reading"),
 ("C19", "fa5f177", "compareNA failed and returned nothing"),
 ("C19", "260b10a", "differences in headers and lengths were not counted"),
 ("C19", "8b3d279", "identical lines without letters were reported as different"),
 ("C19", "a5b069a", "the threshold for approximate comparison was wrong"),
 ("C19", "713e90a", "comparing directories left out files found in the second one only and said nothing of different lengths"),
 ("C23", "5f6d178", "translate2010To2110 could not even be imported, and failed on every dictionary"),
 ("C01", "287195e", "commas at the end of character values of FFI 2160 were lost in writing"),
 ("C06", "f621496", "a number of points in the data section that is a fraction or negative was accepted"),
 ("C21", "8472fd9", "dictionaries holding integer data could not be converted to NetCDF"),
 ("C21", "6722f9a", "scalar times held as datetime64 were reported as a number of nanoseconds"),
 ("C22", "fa0c699", "labels holding percent signs were taken for format strings in FFI 1001 files"),
 ("C03", "33f450f", "trailing annotations that hold a circumflex were not stripped"),
 ("C05", "89927c8", "annotated output annotated one line several times when its text held a form feed or similar characters"),
 ("C13", "3d23aa2", "attribute texts were split into comment lines at characters that are no line ends"),
 ("C10", "941d740", "integer attributes that need more than 32 bits made the conversion to NetCDF fail"),
 ("C10", "2a62184", "auxiliary variables without a name could not be renamed"),
 ("C12", "a8dee7f", "a NetCDF file that holds an array of text could not be converted at all"),
 ("C08", "89bc46a", "a write that failed halfway left its part in the file, and repeating it added to it"),
]
KNOWN = [
    {"property": "C02", "replay": "known/C02-2160-ignored-lines.json",
     "what": "an FFI 2160 file written from contents that were read with ignore_header_lines starts with the ignored lines, so that its first line is not the header length (na_file_2160.writeHeader)"},
]
out = [{"property": p, "status": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]
out += [dict(k, status="known") for k in KNOWN]
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
