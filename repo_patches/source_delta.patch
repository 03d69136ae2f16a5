From a5ea57e041a496a8929f08f05838187a40f5e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 01/77] fix: blank header name lines can be written
 (stripQuotes failed on an empty string)

---
 nappy/utils/common_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 64e13cc..ab1eae9 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -234,8 +234,8 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-    if s[0] in ("'", '"'): s = s[1:]
-    if s[-1] in ("'", '"'): s = s[:-1]
+    if s[:1] in ("'", '"'): s = s[1:]
+    if s[-1:] in ("'", '"'): s = s[:-1]
     return s
 
 
-- 
2.43.0


From 2afc8d15645225330cde4975d0abb2aa33a7d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 02/77] fix: writing a header no longer reverses the DX, NX and
 XNAME lists of the caller

---
 nappy/na_file/na_file_2010.py | 5 ++---
 nappy/na_file/na_file_2110.py | 4 ++--
 nappy/na_file/na_file_2160.py | 4 ++--
 nappy/na_file/na_file_2310.py | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 333ea49..4c572f2 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -56,10 +56,10 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         Writes FFI-specific header section.
         """        
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        NX = self.NX
+        NX = self.NX[:]
         NX.reverse()
         self.header.write(wrapLine("NX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 2) + "%s\n") % tuple(NX)))
         NXDEF = self.NXDEF[:]
@@ -133,7 +133,6 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         This method can be called directly by the user.
         """        
         # Set up unbounded IV loop
-        self.NX.reverse()
         for m in range(len(self.X[0])):
 
             # Write unbounded independent variable mark and auxiliary variables
diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index 8ef803b..d04a378 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -43,10 +43,10 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         Writes FFI-specific header section.
         """
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, (("%s" + self.delimiter) * (self.NIV - 1) + "%s\n") % tuple(DX)))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index f6121e7..408b8e0 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -49,11 +49,11 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write("\n")
         
         self._writeCommonHeader()
-        DX = self.DX
+        DX = self.DX[:]
         DX.reverse()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % tuple(DX)))
         self.header.write(wrapLine("LENX", self.annotation, self.delimiter, "%s\n" % self.LENX))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
         self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 3dfdd22..a26603b 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -44,9 +44,9 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         """
         self._writeCommonHeader()
         self.header.write(wrapLine("DX", self.annotation, self.delimiter, "%s\n" % self.DX[0]))
-        XNAME = self.XNAME
+        XNAME = self.XNAME[:]
         XNAME.reverse()
-        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(self.XNAME)))
+        self.header.write(wrapLines("XNAME", self.annotation, self.delimiter, "%s\n" * self.NIV % tuple(XNAME)))
         self._writeVariablesHeaderSection()
         self._writeAuxVariablesHeaderSection()
         self._writeComments()
-- 
2.43.0


From c4bab109c4dfd6f857e75392937d77d13dd99c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 03/77] fix: read each bounded axis of FFI 3010/4010 with its
 own number of defined values

---
 nappy/na_file/na_file_2010.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index 4c572f2..e605efc 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -40,8 +40,8 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         self.NXDEF = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), self.NIV - 1, int)
         self.NXDEF.reverse()  # Reverse because C-type array is least-changing first
         self.X = []
-        for i in range(self.NIV - 1):
-            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NXDEF[i], float))
+        for nxdef in reversed(self.NXDEF):   # Axes are recorded fastest-changing first
+            self.X.append(nappy.utils.text_parser.readItemsFromUnknownLines(self.file, nxdef, float))
         # Unbounded Independent variable should be first so insert empty list at start
         self.X.reverse()                 
         self.X.insert(0, [])
-- 
2.43.0


From e8407d425fd39e4cf916a3962ec6e5fd61e0b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 04/77] fix: reject truncated headers and over-full records
 instead of looping forever or dropping items

---
 nappy/na_file/na_file.py   |  5 ++++-
 nappy/utils/text_parser.py | 12 +++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 4ba54f0..488ceec 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -157,7 +157,10 @@ class NAFile(nappy.na_file.na_core.NACore):
         "Reads nlines lines from a file and returns them in a list."
         lines = []
         for i in range(nlines):
-            lines.append(self.file.readline().strip())
+            line = self.file.readline()
+            if line == "":
+                raise Exception("Unexpected end of file found in header.")
+            lines.append(line.strip())
         return lines
 
     def _checkForBlankLines(self, datalines):
diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 3150bf3..363dc9d 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -68,6 +68,7 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     """
 
     rtitems = []
+    extras = []
     lines = []        
 
     if type(object) == type([2,3]): 
@@ -77,13 +78,18 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
             object = object[1:]
             items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
+            extras = rtitems[nitems:]
 
     else:
         while len(rtitems) < nitems:
-            items = rightStripCurlyBraces(object.readline()).strip().split()
+            nextitem = object.readline()
+            if nextitem == "":
+                raise Exception("Unexpected end of file, expected " + str(nitems) + " items but found: \n" + str(lines))
+            items = rightStripCurlyBraces(nextitem).strip().split()
             lines.append(items)
-            (rtitems, extras) = (rtitems + items[:nitems], items[nitems:])
+            rtitems = rtitems + items
+            extras = rtitems[nitems:]
 
     if len(extras) > 0:
         raise Exception("Could not split " + str(len(lines)) + " lines exactly into required number (" + str(nitems) + ") of items: \n" + str(lines))
-- 
2.43.0


From a91d79a9e93b021d3e4bb668f05e79f00edec497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 05/77] fix: FFI 2310 writes one record per variable, as the
 format defines and the reader expects

---
 nappy/na_file/na_file_2310.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a26603b..a9ee5a8 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -107,9 +107,10 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
-            # Write second independant variable and dependant variables
-            var_string = ""
-            for p in range(self.NX[m]):
-                for n in range(self.NV):
+            # Write dependant variables: one record per variable (none if there are no values)
+            if self.NX[m] == 0: continue
+            for n in range(self.NV):
+                var_string = ""
+                for p in range(self.NX[m]):
                     var_string = var_string + (self.format %self.V[n][m][p])
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
-- 
2.43.0


From fd5e5a7bfbc8f74d0774495fbaf13469eacdc6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/77] fix: reading the data section again no longer appends
 to the axis of the first reading

---
 nappy/na_file/na_file_2010.py |  1 +
 nappy/na_file/na_file_2310.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file_2010.py b/nappy/na_file/na_file_2010.py
index e605efc..2fecf00 100644
--- a/nappy/na_file/na_file_2010.py
+++ b/nappy/na_file/na_file_2010.py
@@ -91,6 +91,7 @@ class NAFile2010(nappy.na_file.na_file.NAFile):
         """
         self.V = []
         self.A = []
+        self.X[0] = []
 
         # Create an array size to request using read routines
         self.arraySize = 1
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index a9ee5a8..4c370ac 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -53,6 +53,14 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         self._fixHeaderLength()
         self.file.write(self.header.read())
 
+    def _setupArrays(self):
+        """
+        Sets up FFI-specific arrays to fill with data (lists of lists).
+        """
+        nappy.na_file.na_file_2110.NAFile2110._setupArrays(self)
+        # Keep only the increment from the header, those in the data section get appended
+        self.DX = self.DX[:1]
+
     def _readData1(self, datalines, ivar_count):
         """
         Reads first line/section of current block of data.
@@ -72,7 +80,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
         self.NX.append(int(aux[0]))
-        self.DX.append(int(aux[2]))
+        self.DX.append(aux[2])
         return rtlines
    
     def _readData2(self, datalines, ivar_count):
-- 
2.43.0


From 31fa666676dcdc9274215c566234f82053eef0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 07/77] fix: FFI 2160 site names with blanks, integer LENX and
 no character auxiliary variables

---
 nappy/na_file/na_file_2160.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 408b8e0..7b539a5 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -33,7 +33,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         self._readCommonHeader()
         self.DX = nappy.utils.text_parser.readItemsFromLine(self.file.readline(), 1, float)
-        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), float)
+        self.LENX = nappy.utils.text_parser.readItemFromLine(self.file.readline(), int)
         self.XNAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NIV), self.NIV, str)
         self.XNAME.reverse()  # Reverse because C-type array is least-changing first
         self._readVariablesHeaderSection()
@@ -74,8 +74,9 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.header.write(wrapLine("ASCAL", self.annotation, self.delimiter, line))
             line = (("%s" + self.delimiter) * (self.NAUXV - self.NAUXC - 1) + "%s\n")  % tuple(self.AMISS[0:(self.NAUXV - self.NAUXC)])
             self.header.write(wrapLine("AMISS", self.annotation, self.delimiter, line))
-            line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
-            self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
+            if self.NAUXC > 0:
+                line = (("%s" + self.delimiter) * (self.NAUXC - 1) + "%s\n") % tuple(self.LENA[(self.NAUXV - self.NAUXC):])
+                self.header.write(wrapLine("LENA", self.annotation, self.delimiter, line))
             line = ("%s\n" * self.NAUXC) % tuple(self.AMISS[(self.NAUXV - self.NAUXC):])
             self.header.write(wrapLines("AMISS", self.annotation, self.delimiter, line))
             line = "%s\n" * self.NAUXV % tuple(self.ANAME)
@@ -101,9 +102,10 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         """      
         # Start with independent and Auxilliary vars
         # Get character string independent variable
-        (x1, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, 1, str)
+        x1 = nappy.utils.text_parser.readItemFromLine(datalines[0], str)
+        datalines = datalines[1:]
         self.X.append([])
-        self.X[ivar_count].append(x1[0])
+        self.X[ivar_count].append(x1)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
         
-- 
2.43.0


From f9a7e3052a9bb3213ea174ccfb0015649d91db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 08/77] fix: FFI 2160 character missing values are text lines
 and may hold blanks

---
 nappy/na_file/na_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 488ceec..0097960 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -274,7 +274,7 @@ class NAFile(nappy.na_file.na_core.NACore):
             self.LENA = nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, int)
             for i in range(nonCharAuxVars):
                 self.LENA.insert(0, None)
-            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromUnknownLines(self.file, self.NAUXC, str)    
+            self.AMISS = self.AMISS + nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXC), self.NAUXC, str)
             self.ANAME = nappy.utils.text_parser.readItemsFromLines(self._readLines(self.NAUXV), self.NAUXV, str)        
             
     def _readComments(self):
-- 
2.43.0


From 1a7a7f52b75adff086038cfb1d6f1be2ae15905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 09/77] fix: readFFI(file) works as documented, without a
 number of lines to ignore

---
 nappy/utils/common_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index ab1eae9..385db04 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -32,7 +32,7 @@ def getNAFileClass(ffi):
     return eval("%s.%s" % (mod, cls))
    
 
-def readFFI(filename, ignore_header_lines):
+def readFFI(filename, ignore_header_lines=0):
     """
     Function to read the top line of a NASA Ames file to extract
     the File Format Index (FFI) and return it as an integer.
-- 
2.43.0


From 832364ed9341c54258f1a963a1cc9e0691a29b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 10/77] fix: chooseFFI handles single-mark 2010 data and 2110
 data with short first blocks

---
 nappy/utils/common_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 385db04..119bb75 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -65,15 +65,17 @@ def chooseFFI(na_dict):
         return 3010
 
     elif d["NIV"] == 2:    # 2 independent variables
-        if type(d["X"][0][0]) == type("string"):
+        first = d["X"][0]
+        if len(first) > 0 and type(first[0]) == type("string"):
             # 2160 - the  independent unbounded variable is a character string
             return 2160
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) > 1:
+        elif len(first) > 1 and type(first[1]) == type([1,2]):
+            if (d["NAUXV"] > 2 and all(len(x[1]) == 1 for x in d["X"])
+                    and list(d["A"][1]) == [x[1][0] for x in d["X"]]):
+                # 2310 - one indepenent variable changes length but only the first value is specifically stated
+                return 2310
             # 2110 - one independent variable changes length and the values are specified
             return 2110
-        elif type(d["X"][0][1]) == type([1,2]) and len(d["X"][0][1]) == 1:
-            # 2310 - one indepenent variable changes length but only the first value is specifically stated
-            return 2310
         else:            
             # 2010 - Straightforward 2-D variables
             return 2010
-- 
2.43.0


From 13b82aad9fa8308b821877dfec1f35709f570517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 11/77] fix: convertNAToCSV honours no_header

---
 nappy/nappy_api.py | 860 ++++++++++++++++++++++-----------------------
 1 file changed, 430 insertions(+), 430 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5a0692e..a935d0d 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,430 +1,430 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+        arg_dict["na_file"] = csv_file
+        arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_file
+    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
+    import nappy.na_file.na_core
+    na_file_obj = nappy.na_file.na_core.NACore()
+    na_file_obj.setNADict(na_dict)
+
+    # Fake up some required methods
+    def fakeCaller():pass
+    na_file_obj.readData = fakeCaller
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Now write them out
+    import xarray as xr
+
+    fout = xr.open_dataset(nc_file, mode=mode)
+    for var in (xr_primary_vars + xr_aux_vars):
+        fout.write(var)
+
+    # Write global attributes
+    for (att, value) in global_attributes:
+        setattr(fout, att, value)
+        
+    fout.close()
+    log.info("NetCDF file '%s' written successfully." % file_name)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
-- 
2.43.0


From 9194f275a4f09be9d71d7c64e6277df3284f7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 12/77] fix: convertNCToCSV writes commas to the named csv_file

---
 nappy/nappy_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index a935d0d..7717de9 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -302,8 +302,9 @@ def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
     """
     if csv_file == None:
         csv_file = getFileNameWithNewExtension(nc_file, "csv")
-        arg_dict["na_file"] = csv_file
-        arg_dict["delimiter"] = ","
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
   
     return convertNCToNA(*[nc_file], **arg_dict)
     
-- 
2.43.0


From b8395142945251ef9ae7bb1b04f1cd469eef8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 13/77] fix: default output names replace the extension of the
 input name instead of appending to it

---
 nappy/utils/common_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 119bb75..df9e199 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -11,6 +11,7 @@ Functions and classes commonly used in nappy.
 """
 
 # Standard library imports
+import os
 from io import StringIO
 import logging
 
@@ -101,10 +102,10 @@ def getFileNameWithNewExtension(input_file, format):
     (ii) just appending new extension.
     """
     base_name = input_file
-    last_four = base_name[-4:]
-    found = last_four.find(".")
+    last_four = os.path.basename(base_name)[-4:]
+    found = last_four.rfind(".")
     if found > -1:
-        idx = len(base_name) + found
+        idx = len(base_name) - len(last_four) + found
         base_name = base_name[:idx]
     return base_name + "." + format
 
-- 
2.43.0


From 96511e21054c979f30178bebf9be767dcb389802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 14/77] fix: negative counts in a header are rejected

---
 nappy/na_file/na_file.py   | 2 ++
 nappy/utils/text_parser.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 0097960..1286b46 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -155,6 +155,8 @@ class NAFile(nappy.na_file.na_core.NACore):
 
     def _readLines(self, nlines):
         "Reads nlines lines from a file and returns them in a list."
+        if nlines < 0:
+            raise Exception("Negative number of lines declared in header: " + str(nlines))
         lines = []
         for i in range(nlines):
             line = self.file.readline()
diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index 363dc9d..a24ef1c 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -67,6 +67,9 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
     also returned.
     """
 
+    if nitems < 0:
+        raise Exception("Negative number of items declared: " + str(nitems))
+
     rtitems = []
     extras = []
     lines = []        
-- 
2.43.0


From fa31874544dee7eac02a3f57d142985d6718420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 15/77] fix: the refusal to convert FFI 2110, 2160 and 2310
 names the reason instead of failing in its message

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 7312b54..2c7e8b3 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -89,7 +89,7 @@ class NADictToXarrayObjects:
         # Check if we have capability to convert this FFI
         if self.na_file_obj.FFI in (2110, 2160, 2310): 
             raise Exception(("Cannot convert NASA Ames File Format Index (FFI) " + 
-                             self.na_file_obj.FFI + 
+                             str(self.na_file_obj.FFI) + 
                              " to Xarray objects. No mapping implemented yet."))
 
         self.output_message = []  # for output displaying message
-- 
2.43.0


From 4b5776594eb80d6ad860b6760ec7f50ba9801313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 16/77] fix: FFI 1020 files can be converted to NetCDF;
 conversion leaves the axes of the file object alone

---
 nappy/nc_interface/na_to_xarray.py | 34 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 2c7e8b3..4a4b6d9 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -340,8 +340,13 @@ class NADictToXarrayObjects:
         if not hasattr(self, 'xr_axes'):
             self._convertXarrayAxes()
 
+        axis = self.xr_axes[0]
+        if self.na_file_obj.FFI == 1020:
+            # Auxiliary variables are only defined at the recorded values of the axis
+            axis = self._getRecordedAxis(axis)
+
         # Set up variable
-        var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes[:1], 
+        var = xarray_utils.create_data_array(array, name=var_name, coords=[axis], 
                                   fill_value=miss, attrs=attributes)
 
         # Sort units etc
@@ -375,17 +380,32 @@ class NADictToXarrayObjects:
             axis = self._convertNAIndVarToXarrayAxis(ivar_number)
             self.xr_axes.append(axis)
 
+    def _getRecordedAxis(self, axis):
+        """
+        Returns the part of the independent variable axis that is recorded in an FFI 1020 file.
+        """
+        name = axis.name + "_recorded"
+        recorded = xr.DataArray(axis.data[::self.na_file_obj.NVPM], name=name, dims=[name], attrs=dict(axis.attrs))
+        recorded.attrs["name"] = name
+        recorded.encoding.update(axis.encoding)
+        return recorded
+
     def _convertNAIndVarToXarrayAxis(self, ivar_number):
         """
         Creates an Xarray axis from a NASA Ames independent variable.
         """
-        if not self.na_file_obj._normalized_X:
-            self.na_file_obj._normalizeIndVars()
-
-        if self.na_file_obj.NIV == 1:
-            array = self.na_file_obj.X
+        na = self.na_file_obj
+
+        if na.FFI == 1020:
+            # Only every NVPM-th value is recorded
+            array = [x + i * na.DX[0] for x in na.X for i in range(na.NVPM)]
+        elif na.NIV == 1:
+            array = na.X
+        elif ivar_number > 0 and na.NXDEF[ivar_number - 1] != na.NX[ivar_number - 1]:
+            # Only the first value(s) are recorded
+            array = [na.X[ivar_number][0] + i * na.DX[ivar_number] for i in range(na.NX[ivar_number - 1])]
         else:
-            array = self.na_file_obj.X[ivar_number]
+            array = na.X[ivar_number]
 
         axis_name = self.na_file_obj.XNAME[ivar_number]
 
-- 
2.43.0


From 65659847e5354717f2fefee40c420f22a5811c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 17/77] fix: missing values of variables with a scale factor
 are marked missing in NetCDF

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 4a4b6d9..60b1e3e 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -269,7 +269,7 @@ class NADictToXarrayObjects:
 
         # Set up variable
         var = xarray_utils.create_data_array(array, name=var_name, coords=self.xr_axes, 
-                                  fill_value=miss, attrs=attributes)
+                                  fill_value=miss * scal, attrs=attributes)
 
         # Sort units etc
         if units:   
@@ -347,7 +347,7 @@ class NADictToXarrayObjects:
 
         # Set up variable
         var = xarray_utils.create_data_array(array, name=var_name, coords=[axis], 
-                                  fill_value=miss, attrs=attributes)
+                                  fill_value=miss * scal, attrs=attributes)
 
         # Sort units etc
         if units:   
-- 
2.43.0


From fb426c3fdcf272b6316f032f3972f0ab06032f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 18/77] fix: variables and axes of the same name are all
 converted, instead of replacing each other

---
 nappy/nc_interface/na_to_xarray.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 60b1e3e..e27ec8f 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -126,6 +126,12 @@ class NADictToXarrayObjects:
         else:
             self.xr_aux_variables = []
             
+        # Make sure no variable replaces another, or an axis, of the same name
+        used_names = {dim for var in self.xr_variables + self.xr_aux_variables for dim in var.dims}
+        for var in self.xr_variables + self.xr_aux_variables:
+            var.name = self._getUniqueName(var.name, used_names)
+            used_names.add(var.name)
+
         self.converted = True
         return (self.xr_variables, self.xr_aux_variables, self.global_attributes)
 
@@ -378,8 +384,22 @@ class NADictToXarrayObjects:
 
         for ivar_number in range(self.na_file_obj.NIV):
             axis = self._convertNAIndVarToXarrayAxis(ivar_number)
+            name = self._getUniqueName(axis.name, [ax.name for ax in self.xr_axes])
+            if name != axis.name:
+                axis = axis.rename({axis.name: name}).rename(name)
+                axis.attrs["name"] = name
             self.xr_axes.append(axis)
 
+    def _getUniqueName(self, name, used_names):
+        """
+        Returns name, with a number added to it if it is one of used_names.
+        """
+        unique_name, count = name, 1
+        while unique_name in used_names:
+            count += 1
+            unique_name = "%s_%d" % (name, count)
+        return unique_name
+
     def _getRecordedAxis(self, axis):
         """
         Returns the part of the independent variable axis that is recorded in an FFI 1020 file.
-- 
2.43.0


From 31851f8111e47c0a163853763b11fc97d94c24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 19/77] fix: variables and axes without a name get the default
 ID

---
 nappy/nc_interface/na_to_xarray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index e27ec8f..70a28be 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -281,7 +281,7 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] =units
     
-        if len(var_name) < max_id_length:
+        if 0 < len(var_name) < max_id_length:
             var_name = safe_nc_id.sub("_", var_name).lower()
         else:
             var_name = "naVariable_%s" % (var_number)
@@ -359,7 +359,7 @@ class NADictToXarrayObjects:
         if units:   
             var.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
+        if 0 < len(var_name) < max_id_length:
             var_name = safe_nc_id.sub("_", var_name).lower()
         else:
             var_name = f"naAuxVariable_{avar_number}"
@@ -438,7 +438,7 @@ class NADictToXarrayObjects:
         if units:   
              axis.attrs["units"] = units
 
-        if len(var_name) < max_id_length:
+        if 0 < len(var_name) < max_id_length:
             axis.name = safe_nc_id.sub("_", var_name).lower()
         else:
             axis.name = f"naIndVariable_{ivar_number}"
-- 
2.43.0


From 46a0e80022d0fff6e6adc268e8b46ddb7055a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 20/77] fix: variables can be selected by names that start with
 a digit

---
 nappy/nc_interface/na_to_xarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 70a28be..e940886 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -232,7 +232,7 @@ class NADictToXarrayObjects:
 
         else:
             # If integers or numbers: then use as indices for selecting variables
-            if isinstance(self.variables[0], int) or re.match(r"\d+", str(self.variables[0])):
+            if isinstance(self.variables[0], int) or re.match(r"\d+$", str(self.variables[0])):
 
                 for var_number in self.variables:
                     vn = int(var_number)
-- 
2.43.0


From cc519b67da620eceed9d0fb24efb1117428813cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 21/77] fix: an unknown auxiliary variable name is refused
 instead of ignored

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index e940886..ab5b2b5 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -321,8 +321,8 @@ class NADictToXarrayObjects:
                     if avar_name in self.na_file_obj.ANAME:
                         avar_number = self.na_file_obj.ANAME.index(avar_name)
                         self.xr_aux_variables.append(self._convertNAAuxToXarrayVariable(avar_number)) 
-            else:
-                raise Exception("Auxiliary variable name not known: " + avar_name)        
+                    else:
+                        raise Exception("Auxiliary variable name not known: " + avar_name)        
 
     def _convertNAAuxToXarrayVariable(self, avar_number, attributes=None):
         """
-- 
2.43.0


From 9245751f8c5d420ade0dd2a1379b2f8bffeee035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 22/77] fix: unknown time units are left as they are when there
 is nobody to ask

---
 nappy/nc_interface/na_to_xarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index ab5b2b5..87b6ba7 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -464,7 +464,10 @@ class NADictToXarrayObjects:
 
                     if self.time_warning:
                         log.debug(message)
-                        time_units_input = input("Please insert your time unit string here (or leave blank):").strip()
+                        try:
+                            time_units_input = input("Please insert your time unit string here (or leave blank):").strip()
+                        except EOFError:     # Nobody to ask
+                            time_units_input = ""
                     else: 
                         time_units_input = ""
 
-- 
2.43.0


From 04fc0b1dfa1a362a3c840d086ad09d206e83ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 23/77] fix: empty text attributes stay texts in NetCDF

---
 nappy/nc_interface/na_to_nc.py | 224 ++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 112 deletions(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 0876215..75be20c 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,112 +1,112 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {da.name: da for da in combined_var_list}
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        ds.to_netcdf(file_name)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From b24be1b8506961fe76d5f2b78a85f2fc9bcc455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 24/77] fix: writeNCFile honours mode='a'

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index 75be20c..e4882ec 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -106,7 +106,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         self.fix_attrs(ds)
 
         # Write to NetCDF
-        ds.to_netcdf(file_name)
+        ds.to_netcdf(file_name, mode=mode)
 
         log.info(f"NetCDF file '{file_name}' written successfully.")
         return True
-- 
2.43.0


From 00f41c858077d7416a65bb76baead0c38e2c24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 25/77] fix: writeNADictToNC works (it used classes and modes
 that do not exist)

---
 nappy/nappy_api.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 7717de9..ef7f423 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -369,28 +369,23 @@ def writeNADictToNC(na_dict, nc_file, mode="w"):
     import nappy.na_file.na_core
     na_file_obj = nappy.na_file.na_core.NACore()
     na_file_obj.setNADict(na_dict)
+    for key, value in na_file_obj.na_dict.items():
+        setattr(na_file_obj, key, value)
+
+    if na_file_obj.FFI is None:
+        na_file_obj.FFI = chooseFFI(na_dict)
+    na_file_obj.var_and_units_callback = None
 
     # Fake up some required methods
     def fakeCaller():pass
     na_file_obj.readData = fakeCaller
 
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NAToXarray(na_file_obj)
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(na_file_obj)
+    convertor.convert()
 
     # Now write them out
-    import xarray as xr
-
-    fout = xr.open_dataset(nc_file, mode=mode)
-    for var in (xr_primary_vars + xr_aux_vars):
-        fout.write(var)
-
-    # Write global attributes
-    for (att, value) in global_attributes:
-        setattr(fout, att, value)
-        
-    fout.close()
-    log.info("NetCDF file '%s' written successfully." % file_name)
+    convertor.writeNCFile(nc_file, mode)
     return True
 
 
-- 
2.43.0


From 8bbcc7443c81318d7ea53f7a61b24edb79ccc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 26/77] fix: convertXarrayObjectsToNA works (it imported a
 module that does not exist) and honours size_limit

---
 nappy/nappy_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index ef7f423..267ee9b 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -338,14 +338,14 @@ def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file,
     """
     na_items_to_override = na_items_to_override or {}
 
-    import nappy.nc_interface.xarray_objs_to_na_file
-    convertor = nappy.nc_interface.xarray_objs_to_na_file.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
                         na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
                         )
     convertor.convert()
 
     na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      annotation=annotation, no_header=no_header)
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
 
     return convertor.output_files_written 
 
-- 
2.43.0


From c973741518a00ae2235e1f11921b0f1b48a4051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 27/77] fix: variables that share a nasa_ames_var_number are
 all written, not only the last of them

---
 nappy/nc_interface/na_content_collector.py | 26 ++++++++--------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e724573..877229a 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -246,41 +246,33 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         (vars_for_na, aux_vars_for_na).
         """
         # First do the main variables
-        ordered_vars = [None] * 1000 # Make a long list to put vars in 
+        ordered_vars = []
 
         # Create a list of other variables to collect up any that are not labelled as nasa ames variables
         other_vars = []
         for var in vars_for_na:
             if hasattr(var, "nasa_ames_var_number"):
-                ordered_vars[var.nasa_ames_var_number] = var
+                ordered_vars.append(var)
             else:
                 other_vars.append(var)
 
-        # Remake vars_for_na now in new order and clean out any that are "None"
-        vars_for_na = []
-        for var in ordered_vars:
-            if var is not None: 
-                vars_for_na.append(var)
-
-        vars_for_na = vars_for_na + other_vars
+        # Remake vars_for_na now in new order, several may have the same number
+        ordered_vars.sort(key=lambda var: int(var.nasa_ames_var_number))
+        vars_for_na = ordered_vars + other_vars
 
         # Now re-order the Auxiliary variables if they previously came from NASA 
-        ordered_aux_vars = [None] * 1000
+        ordered_aux_vars = []
         other_aux_vars = []
 
         for var in aux_vars_for_na:
             if hasattr(var, "nasa_ames_aux_var_number"):
-                ordered_aux_vars[var.nasa_ames_aux_var_number] = var
+                ordered_aux_vars.append(var)
             else:
                 other_aux_vars.append(var)
 
         # Remake aux_vars_for_na now in order
-        aux_vars_for_na = []
-        for var in ordered_aux_vars:
-            if type(var) != type(None): 
-                aux_vars_for_na.append(var)
-
-        aux_vars_for_na = aux_vars_for_na + other_aux_vars
+        ordered_aux_vars.sort(key=lambda var: int(var.nasa_ames_aux_var_number))
+        aux_vars_for_na = ordered_aux_vars + other_aux_vars
         return (vars_for_na, aux_vars_for_na)
 
     def _decideFileFormatIndex(self, number_of_dims, aux_vars_for_na, ffis_limited=False):
-- 
2.43.0


From 43b645f2f80a2b8a5f2c3f043383fbfcc92ab935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 28/77] fix: variables on a regular subset of the axis are
 written as auxiliary variables of FFI 1020, not dropped

---
 nappy/nc_interface/na_content_collector.py | 30 ++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 877229a..16cf016 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -193,19 +193,18 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if not xarray_utils.areAxesIdentical(best_var_axes[0], first_axis):
 
                     # If not identical, then it might still qualify as an auxiliary every n time points - valid for 1020
-                    if len(var.shape) == 1:
+                    nvpm = False
+                    if number_of_dims == 1 and self.requested_ffi in (None, 1020) and \
+                            self._hasConstantInterval(best_var_axes[0]):
                         nvpm = xarray_utils.isAxisRegularlySpacedSubsetOf(first_axis, best_var_axes[0])
 
-                        # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
-                        if nvpm:
-                            ffis_limited = [1020]
-                            self.na_dict["NVPM"] = nvpm
-                        else: # if returned False, i.e. not regular subset axis
-                            self.unused_vars.append(var)
-
-                    else:
+                    # NVPM is the number of implied values which is equal to (len(ax2)/len(ax1))
+                    if nvpm and self.na_dict.get("NVPM", nvpm) == nvpm:
+                        ffis_limited = [1020]
+                        self.na_dict["NVPM"] = nvpm
+                        aux_vars_for_na.append(var)
+                    else: # if returned False, i.e. not regular subset axis
                         self.unused_vars.append(var)
-                        continue
 
                 else:
                     # This could be used as a standard auxiliary variable
@@ -239,6 +238,13 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         return vars_for_na, aux_vars_for_na
 
+    def _hasConstantInterval(self, axis):
+        """
+        Returns True if the implied values of FFI 1020 can be calculated for this axis.
+        """
+        values = xarray_utils.getArrayAsList(axis)
+        return len({b - a for a, b in zip(values[:-1], values[1:])}) == 1
+
     def _reorderVarsIfPreviouslyNA(self, vars_for_na, aux_vars_for_na):
         """
         Re-order if they previously came from NASA Ames files (i.e. including the 
@@ -291,6 +297,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             else:
                 return self.requested_ffi
 
+        # Auxiliary variables on a regular subset of the axis only fit in FFI 1020
+        if ffis_limited == [1020]:
+            return 1020
+
         # Base the sub-selection on number of dimensions
         if number_of_dims > 4:
             raise Exception("Cannot write variables defined against greater than 4 axes in NASA Ames format.")
-- 
2.43.0


From fb51ca331aa603265c41ab00250d576a7e69fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 29/77] fix: time axes of any name, without reference time or
 of datetime64 values can be written to NASA Ames

---
 nappy/nc_interface/xarray_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index cdea26d..fb1be5f 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -286,10 +286,19 @@ def create_data_array(arr, name, coords, attrs, fill_value):
 
 
 def datetimes_to_nums(da):
-    units = da.time.encoding['units']
-    calendar = da.time.encoding.get('calendar', 'standard')
-    arr = cftime.date2num(da.data, units, calendar=calendar)
-    return arr
+    arr = np.array(resolve_array(da.data))
+
+    # A time axis may hold numbers, if its units are no reference time
+    if np.issubdtype(arr.dtype, np.number):
+        return arr
+
+    units = da.encoding['units']
+    calendar = da.encoding.get('calendar', 'standard')
+
+    if np.issubdtype(arr.dtype, np.datetime64):
+        return xr.coding.times.encode_cf_datetime(arr, units, calendar)[0]
+
+    return cftime.date2num(arr, units, calendar=calendar)
 
 
 def get_interval(da, indx1, indx2, handle_datetimes=True):
-- 
2.43.0


From b70e01b874f750ce8eb9a7e72155b455eed1d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 30/77] fix: the first date of the data honours the calendar of
 the time axis

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 16cf016..955f4b0 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -770,6 +770,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             # Get first date in list
             try:
                 units = self.ax0.encoding["units"]
+                calendar = self.ax0.encoding.get("calendar", "standard")
                 first_day = self.na_dict["X"][0]
 
                 # Cope with "X" being a list or list of lists (for different FFIs)
@@ -777,7 +778,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     first_day = first_day[0]
 
                 self.na_dict["DATE"] = \
-                    [getattr(cftime.num2date(first_day, units), attr) for attr in ('year', 'month', 'day')]                
+                    [getattr(cftime.num2date(first_day, units, calendar), attr) for attr in ('year', 'month', 'day')]                
             except Exception:
                 msg = warning_message
                 log.info(msg)
-- 
2.43.0


From 0ac6582cdeaebf51f4e4edec1e7e73624c1f5ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 31/77] fix: time axes in any position, and in FFI 2110 and
 2310, are written as numbers

---
 nappy/nc_interface/na_content_collector.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 955f4b0..e823259 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -401,9 +401,9 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 if self.na_dict["FFI"] == 2110:
                     new_x = []
                     new_nx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
 
@@ -424,10 +424,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     new_x = []
                     new_nx = []
                     new_dx = []
-                    ax2_values = xarray_utils.get_coord_by_index(var, 1).data.tolist()
+                    ax2_values = xarray_utils.getArrayAsList(xarray_utils.get_coord_by_index(var, 1))
                     incr = xarray_utils.get_interval(ax2_values, 0, 1)
 
-                    for i in self.ax0[:]:
+                    for i in self.na_dict["X"][0]:
                         new_x.append([i, ax2_values])
                         new_nx.append(len(ax2_values))
                         new_dx.append(incr)
@@ -484,6 +484,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         NASA Ames). It appends to the various self.na_dict containers.
         """
         length = len(axis)
+        values = xarray_utils.getArrayAsList(axis)
 
         self.na_dict["NX"].append(length)
         self.na_dict["XNAME"].append(xarray_utils.getBestName(axis))
@@ -492,16 +493,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         if length < 2:
             self.na_dict["DX"].append(0)
             self.na_dict["NXDEF"].append(length)
-            self.na_dict["X"].append(axis.data.tolist())        
+            self.na_dict["X"].append(values)        
             return
 
-        incr = xarray_utils.get_interval(axis, 0, 1)
+        incr = xarray_utils.get_interval(values, 0, 1)
 
         for i in range(1, length):
-            if (axis[i] - axis[i - 1]) != incr:
+            if xarray_utils.get_interval(values, i - 1, i) != incr:
                 self.na_dict["DX"].append(0)
                 self.na_dict["NXDEF"].append(length)
-                self.na_dict["X"].append(axis.data.tolist())
+                self.na_dict["X"].append(values)
                 break
 
         else: # If did not break out of the loop
@@ -511,7 +512,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
             self.na_dict["DX"].append(incr)
             self.na_dict["NXDEF"].append(max_length)
-            self.na_dict["X"].append(axis[:max_length])
+            self.na_dict["X"].append(values[:max_length])
 
     def _defineNAGlobals(self):
         """
-- 
2.43.0


From b7a2344030797ba32d6d7090df12df981c7bb42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 32/77] fix: a NaN fill value is replaced by the default
 missing value, NASA Ames files cannot hold NaN

---
 nappy/nc_interface/xarray_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index fb1be5f..291c0f7 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -77,6 +77,10 @@ def getMissingValue(var):
                 miss = var.encoding[key]
                 break
 
+    # NASA Ames cannot hold a missing value that is not a number
+    if isinstance(miss, (float, np.floating)) and np.isnan(miss):
+        miss = None
+
     if miss is None:
         miss = -1.e20
 
-- 
2.43.0


From a5d8133d3550aa05db66c4e9fc8034a0359a84ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 33/77] fix: locally configured NetCDF attributes no longer
 break the conversion with a NameError

---
 nappy/nc_interface/na_content_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e823259..8c67428 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -524,8 +524,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         local_nc_to_na_map = nc_to_na_map.copy()
 
         for att, value in local_nc_atts.items():
-            if att not in local_nc_to_na_map:
-                local_nc_to_na_map[key] = value
+            if att not in local_nc_to_na_map and value in self.na_dictionary_keys:
+                local_nc_to_na_map[att] = value
 
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
-- 
2.43.0


From 104afede0a348fdce10a7647af47f9148f9d14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 34/77] fix: numeric global attributes appear in the comments
 and never replace the format index or counts

---
 nappy/nc_interface/na_content_collector.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 8c67428..8b8f6dd 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -530,10 +530,18 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         self.extra_comments = [[], [], []]  # Normal comments, special comments, other comments
 
         for key, value in self.globals.items():
+            # Numbers are read from NetCDF files as numpy numbers
+            if isinstance(value, np.number):
+                value = value.item()
+
             if key != "first_valid_date_of_data" and \
                     type(value) not in (str, int, float):
                 continue
 
+            # These items describe the output file, whatever the input file says about another one
+            if local_nc_to_na_map.get(key) in ("FFI", "NLHEAD", "IVOL", "NVOL"):
+                continue
+
             # Loop through keys of header/comment items to map
             if key in local_nc_to_na_map:
                 if key == "history":
@@ -549,6 +557,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         self.history.append(h) 
                     
                 elif key == "institution":
+                    value = str(value)
                     # If fields came from NA then extract appropriate fields.
                     match = re.match(r"(.*)\s+\(ONAME from NASA Ames file\);\s+(.*)\s+\(ORG from NASA Ames file\)\.", 
                              value)
@@ -565,7 +574,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
-                    comment_lines = value.split("\n")
+                    comment_lines = str(value).split("\n")
                     normal_comments = []
                     normal_comm_flag = None
 
-- 
2.43.0


From 79749c6fc3c8aff76699d19955daa58cf815f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 35/77] fix: line breaks in names, titles and sources no longer
 corrupt the NASA Ames header

---
 nappy/nc_interface/na_content_collector.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 8b8f6dd..fe96a70 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -568,10 +568,6 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                         self.na_dict["ONAME"] = value
                         self.na_dict["ORG"] = value
 
-                    # NOTE: should probably do the following search and replace on all string lines
-                    self.na_dict["ONAME"] = self.na_dict["ONAME"].replace("\n", "  ")
-                    self.na_dict["ORG"] = self.na_dict["ORG"].replace("\n", "  ")
-
                 elif key == "comment":
                     # Need to work out if they are actually comments from NASA Ames in the first place
                     comment_lines = str(value).split("\n")
@@ -735,7 +731,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in NCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = c.splitlines()
                 for line in lines:
                     if line != lines[0]: 
                         line = "  " + line
@@ -745,7 +741,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in SCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.split("\n")
+                lines = c.splitlines()
 
                 for line in lines:
                     if line != lines[0]: 
@@ -809,3 +805,17 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
         for key in header_items.keys():
             self.na_dict[key] = header_items[key]
+
+        # Each of these items is written on one line
+        for key in ("ONAME", "ORG", "SNAME", "MNAME"):
+            if key in self.na_dict:
+                self.na_dict[key] = self._makeSingleLine(self.na_dict[key])
+
+        for key in ("XNAME", "VNAME", "ANAME"):
+            self.na_dict[key] = [self._makeSingleLine(name) for name in self.na_dict[key]]
+
+    def _makeSingleLine(self, text):
+        """
+        Returns text with all line breaks replaced by blanks.
+        """
+        return "  ".join(str(text).splitlines())
-- 
2.43.0


From 80c6c4a5beca102df34649e76985f62302775f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 36/77] fix: singleton variables are reported whether or not
 there are special comments or variable attributes

---
 nappy/nc_interface/na_content_collector.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index fe96a70..543fdbe 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -663,7 +663,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         # Uses first item in self.extra_comments to start SCOM
         special_comments = special_comments + self.extra_comments[0]
 
-        if len(special_comments) > 0: 
+        if len(special_comments) > 0 or len(self.rank_zero_vars) > 0: 
             SCOM = [hp["sc_start"]]
             spec_comm_flag = 1
 
@@ -690,6 +690,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             rank_zero_vars_string.insert(0, hp["sing_start"])
             rank_zero_vars_string.append(hp["sing_end"])
 
+        SCOM.extend(rank_zero_vars_string)
+
         # Loop through variables and add 
         for var in self.ordered_vars:
             varflag = "unused"
@@ -703,15 +705,16 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
 
                 if isinstance(value, str) or np.isscalar(value) and scom not in used_var_atts:
                     if varflag == "unused":
+                        if spec_comm_flag == None:
+                            SCOM = [hp["sc_start"]]
+                            spec_comm_flag = 1
+
                         if var_comm_flag == None:
+                            SCOM.append(hp["addl_vatts"])
+                            SCOM.append(hp["ncatts_start"])
                             var_comm_flag = 1
 
-                    if spec_comm_flag == None:
-                        SCOM = [hp["sc_start"]] + rank_zero_vars_string
-                        SCOM.append(hp["addl_vatts"])
-                        SCOM.append(hp["ncatts_start"])
                         varflag = "using" 
-                        spec_comm_flag = 1
 
                     if not var_name_written:
                         SCOM.append("  Variable %s: %s" % (var.name, name))
-- 
2.43.0


From dc0beffda9fdbd723fe83e26f78684cd5140eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 37/77] fix: missing values in the data section are equal to
 the declared missing values

---
 nappy/nc_interface/na_content_collector.py | 4 ++++
 nappy/nc_interface/xarray_to_na.py         | 4 ++++
 nappy/nc_interface/xarray_utils.py         | 9 ++++-----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 543fdbe..a378da8 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -331,6 +331,10 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
             else:
                 item = item[0]
 
+        # A single precision value stands for its shortest decimal representation
+        if isinstance(item, np.floating) and not isinstance(item, float):
+            item = float(str(item))
+
         return item
 
     def _defineNAVars(self, vars):
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 246bb34..e7fd68c 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -269,6 +269,10 @@ class XarrayToNA:
             # Set up current na dict
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
 
+            # The missing values must be those found in the data section, as rounded by the float format
+            for key in ("VMISS", "AMISS"):
+                this_na_dict[key] = [float(float_format % miss) for miss in this_na_dict[key]]
+
             # Override content of NASA Ames if they are permitted
             for key in overriders:
 
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 291c0f7..21e5ade 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -329,12 +329,11 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
 
     elif missing_value is not None:
         arr = resolve_array(da.data)
-        found_nans = np.isnan(arr).any()
+        found_nans = np.isnan(arr)
 
-        if found_nans:
-            arr = da.fillna(missing_value).data
-        else:
-            arr = da.data
+        if found_nans.any():
+            # Not in single precision, where the missing value may become another one
+            arr = np.where(found_nans, missing_value, arr.astype("float64"))
 
     else:
         arr = da.data
-- 
2.43.0


From 104ef7f0773b2fcc491c6bb5dff3b4e1ad0a2b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 38/77] fix: running numbers of output files go before the
 extension, also with dots in directory names or without extension

---
 nappy/nc_interface/xarray_to_na.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index e7fd68c..908b31a 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -11,6 +11,7 @@ Holds the class XarrayToNA that converts a set of Xarray variables (DataArrays)
 """
 
 # Imports from python standard library
+import os
 import sys
 import logging
 
@@ -211,7 +212,7 @@ class XarrayToNA:
                 base_name = base_name[:-3]
             na_file = base_name + ".na"
 
-        name_parts = na_file.split(".")
+        (base_name, extension) = os.path.splitext(na_file)
 
         # Now, create some valid file names
         if len(self.na_dict_list) == 1:
@@ -220,9 +221,7 @@ class XarrayToNA:
             file_names = []
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
-                suffix = f"_{file_counter}"
-                new_name = (".".join(name_parts[:-1])) + suffix + "." + name_parts[-1]
-                file_names.append(new_name)
+                file_names.append(f"{base_name}_{file_counter}{extension}")
 	    
         return file_names
 
-- 
2.43.0


From 718d464f86b6b680f9ca800b57322846dd893388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 39/77] fix: files split by size limit are reported once, keep
 their extension and honour no_header; limits below one are refused

---
 nappy/nc_interface/xarray_to_na.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 908b31a..6271ac8 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -316,7 +316,7 @@ class XarrayToNA:
             if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
-                                                                        annotation=annotation)
+                                                                        annotation=annotation, no_header=no_header)
                 file_list.extend(files_written)
 
             # If not having to split file into multiple outputs (normal condition)
@@ -368,13 +368,17 @@ class XarrayToNA:
         return self.output_message
 
     def _writeNAFileSubsetsWithinSizeLimit(self, this_na_dict, file_name, delimiter, 
-                      float_format, size_limit, annotation):
+                      float_format, size_limit, annotation, no_header=False):
         """
         If self.size_limit is specified and FFI is 1001 we can chunk the output into 
         different files in a NASA Ames compliant way. 
         Returns list of file names of outputs written.
         """
+        if size_limit < 1:
+            raise ValueError("The size limit must be at least one row, not: %s" % size_limit)
+
         file_names = []
+        (base_name, extension) = os.path.splitext(file_name)
         var_list = this_na_dict["V"]
         array_length = len(var_list[0])
         nvol_info = divmod(array_length, size_limit)
@@ -404,12 +408,12 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{file_name[:-3]}-{ivol:03d}.na"
+            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
             file_names.append(file_name_plus_letter)
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation)
+            x.write(delimiter=delimiter, float_format=float_format, annotation=annotation, no_header=no_header)
             x.close()
 
             msg = "\nOutput files split on size limit: %s\nFilename used: %s" % (size_limit, file_name_plus_letter)
@@ -418,8 +422,6 @@ class XarrayToNA:
             letter_count = letter_count + 1
             start = end
 
-            file_names.append(file_name_plus_letter) 
-
         return file_names
 
     def _updateWithColumnHeaders(self, na_dict, delimiter):
-- 
2.43.0


From 28b10b79337a5259ab51a2b2386fbc85a3bc0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 40/77] fix: writing the same conversion twice does not repeat
 column headers and inserted comments

---
 nappy/nc_interface/xarray_to_na.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 6271ac8..353bc6d 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -266,7 +266,9 @@ class XarrayToNA:
             self.output_message.append(msg)
 
             # Set up current na dict
+            # (Take a copy - to keep the converted content as it is for other outputs)
             (this_na_dict, vars_to_write) = na_dict_and_var_ids
+            this_na_dict = this_na_dict.copy()
 
             # The missing values must be those found in the data section, as rounded by the float format
             for key in ("VMISS", "AMISS"):
@@ -453,7 +455,7 @@ class XarrayToNA:
 
         col_names.extend(na_dict["VNAME"])
         col_names_line = ",".join(col_names)
-        na_dict["NCOM"].append(col_names_line) 
+        na_dict["NCOM"] = na_dict["NCOM"] + [col_names_line]
         na_dict["NNCOML"] = len(na_dict["NCOM"])
         return  
 
-- 
2.43.0


From a59bba513b127041791f00d800aa69fc21a1e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 41/77] fix: dates and names can be overridden by lists and
 comments by a text; a wrong number of names is refused

---
 nappy/nc_interface/xarray_to_na.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 353bc6d..7ba2d0e 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -279,12 +279,21 @@ class XarrayToNA:
 
                 if key in permitted_overwrite_metadata:    
                     if key in items_as_lists:
-                        new_item = overriders[key].split()		   
+                        new_item = overriders[key]
+                        if isinstance(new_item, str):
+                            new_item = new_item.split()
                         if key in ("DATE", "RDATE"):
                             new_item = [int(list_item) for list_item in new_item]
                     else:
                         new_item = overriders[key]
 
+                    # The number of names must fit the data
+                    if key in ("VNAME", "ANAME") and len(new_item) != len(this_na_dict[key]):
+                        raise ValueError(f"Cannot overwrite {len(this_na_dict[key])} names in '{key}' with {len(new_item)} names.")
+
+                    if key in ("SCOM", "NCOM") and isinstance(new_item, str):
+                        new_item = new_item.splitlines()
+
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
 
-- 
2.43.0


From 05dc7bbb330599b83eca6b19adf89a8f116aade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 42/77] fix: auxiliary coordinates of a dataset are written in
 the same order in every run

---
 nappy/nc_interface/xarray_to_na.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 7ba2d0e..a9bbc0e 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -288,6 +288,9 @@ class XarrayToNA:
                         new_item = overriders[key]
 
                     # The number of names must fit the data
+                    if key == "ANAME" and len(this_na_dict[key]) == 0:
+                        continue
+
                     if key in ("VNAME", "ANAME") and len(new_item) != len(this_na_dict[key]):
                         raise ValueError(f"Cannot overwrite {len(this_na_dict[key])} names in '{key}' with {len(new_item)} names.")
 
@@ -535,8 +538,9 @@ class XarrayDatasetToNA(XarrayToNA):
 
         # Also capture variables that are auxiliary coords of main variables 
         # (i.e. they are non-dimension coordinates)
-        aux_coord_var_keys = set([coord for var in xr_dset.values() for coord in var.coords.keys() \
-                                  if coord not in var.dims])
+        # (in the order of the dataset, which does not change from run to run)
+        aux_coord_var_keys = dict.fromkeys([coord for var in xr_dset.values() for coord in var.coords.keys() \
+                                            if coord not in var.dims])
 
         # Compile into one list of variable to convert
         xr_variables = [xr_dset[key] for key in main_var_keys]
-- 
2.43.0


From f08fd761ef2609fa7363d514c26254dd09ea97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 43/77] fix: axes are identical only if all their values agree,
 not if one does; subsets are found whatever the axes are called

---
 nappy/nc_interface/xarray_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 21e5ade..ce1c27c 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -131,7 +131,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     If check_id == False then don't compare the ids of the axes.
     """
     for axtype in ("time", "level", "latitude", "longitude"):
-        if axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
+        if check_id and axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
             return False
 
     # Check ids
@@ -145,7 +145,7 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     # Do different comparisons depending on 'is_subset' argument
     if is_subset == False:
         # Check lengths and values only
-        if (len(ax1) != len(ax2)) or all(ax1.data != ax2.data):
+        if (len(ax1) != len(ax2)) or any(ax1.data != ax2.data):
             return False
 
     else:
-- 
2.43.0


From 33a6a55838d53c0f4eb0a937789c2019e835775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 44/77] fix: an empty long_name does not prevent a variable
 from being converted

---
 nappy/nc_interface/xarray_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index ce1c27c..000f23b 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -27,7 +27,7 @@ def getBestName(var):
 
     # Deal with object that has attributes
     for att in att_order:
-        if hasattr(var, att):   
+        if hasattr(var, att) and getattr(var, att) not in ("", None):
             name = getattr(var, att)
             break
 
-- 
2.43.0


From a6b2be986a8daf15212cb89b395fa7240e3d0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 45/77] fix: scalar times and strings no longer prevent a
 NetCDF file from being converted

---
 nappy/utils/common_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index df9e199..5f28005 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -271,6 +271,9 @@ def get_rank_zero_array_value(arr):
         return str(arr)
     elif arr.dtype.type is np.bytes_:
         return arr.flat[0].decode()
+    elif arr.dtype.type is np.object_:
+        # Such as times and strings of variable length
+        return str(arr)
     else:
         return float(arr) 
 
-- 
2.43.0


From be6cc7bdc0778d659df4cbd1a73b75a813d7915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 46/77] fix: dates can be overridden where the input holds the
 date of an earlier NASA Ames file

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index a378da8..e70434c 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -611,7 +611,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                     ]  
 
                 elif key == "first_valid_date_of_data":
-                    self.na_dict["DATE"] = value
+                    parts = value.split() if isinstance(value, str) else value
+                    self.na_dict["DATE"] = [int(part) for part in parts]
 
                 elif key in ("Conventions", "references"):
                     self.extra_comments[2].append(f"{key}:   {value}")
-- 
2.43.0


From 25ff9dabb3eb39f2c13197c4400374a9d2ed077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 47/77] fix: scalar coordinates of the same type as an axis do
 not break the conversion

---
 nappy/nc_interface/xarray_utils.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 000f23b..6b93d3e 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -130,10 +130,6 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
    
     If check_id == False then don't compare the ids of the axes.
     """
-    for axtype in ("time", "level", "latitude", "longitude"):
-        if check_id and axtype in ax1.cf and axtype in ax2.cf and ax1.cf[axtype].name != ax2.cf[axtype].name:
-            return False
-
     # Check ids
     if check_id:
         if ax1.name != ax2.name: return False
@@ -174,6 +170,18 @@ def areAxesIdentical(ax1, ax2, is_subset=False, check_id=True):
     return True
 
 
+def has_cf_type(coord, cf_type):
+    """
+    Determines if a coordinate is itself of a type known to cf_xarray, such as "time".
+    (It may carry scalar coordinates of the same type.)
+
+    :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
+    :param cf_type: (str) type of coordinate
+    :return: (bool) True if the coordinate is of the type.
+    """
+    return coord.name in coord.cf.coordinates.get(cf_type, [])
+
+
 def is_latitude(coord):
     """
     Determines if a coordinate is latitude.
@@ -182,7 +190,7 @@ def is_latitude(coord):
     :return: (bool) True if the coordinate is latitude.
     """
 
-    if "latitude" in coord.cf and coord.cf["latitude"].name == coord.name:
+    if has_cf_type(coord, "latitude"):
         return True
 
     if coord.attrs.get("standard_name", None) == "latitude":
@@ -198,7 +206,7 @@ def is_longitude(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is longitude.
     """
-    if "longitude" in coord.cf and coord.cf["longitude"].name == coord.name:
+    if has_cf_type(coord, "longitude"):
         return True
 
     if coord.attrs.get("standard_name", None) == "longitude":
@@ -214,7 +222,7 @@ def is_level(coord):
     :param coord: coordinate of xarray dataset e.g. coord = ds.coords[coord_id]
     :return: (bool) True if the coordinate is level.
     """
-    if "vertical" in coord.cf and coord.cf["vertical"].name == coord.name:
+    if has_cf_type(coord, "vertical"):
         return True
 
     if hasattr(coord, "positive"):
@@ -236,7 +244,7 @@ def is_time(coord, test_by_values=False):
     :test_by_values: boolean to decide whether to identify by checking first value type
     :return: (bool) True if the coordinate is time.
     """
-    if "time" in coord.cf and coord.cf["time"].name == coord.name:
+    if has_cf_type(coord, "time"):
         return True
 
     if np.issubdtype(coord.dtype, np.datetime64):
-- 
2.43.0


From a1a031956114adbd720a84b909f0c698e2e5d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 48/77] fix: scalar variables whose long or standard name is
 the name of an axis are reported

---
 nappy/nc_interface/xarray_to_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index a9bbc0e..3020df2 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -146,7 +146,7 @@ class XarrayToNA:
               
                 var_metadata = var_obj.attrs
                 var_obj = xr.DataArray(np.array(var_obj), 
-                                   name=xarray_utils.getBestName(var_obj), ###.replace(" ", "_"), 
+                                   name=var_obj.name, # its best name may be the name of an axis
                                    attrs=var_metadata)
                 # Add the single value to the attributes so it will get rendered in the NA comments
                 var_obj.attrs['value'] = get_rank_zero_array_value(var_obj.values)
-- 
2.43.0


From d3f8781aeba79a26394a5022dbaa400a9daa7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 49/77] fix: the date of an earlier NASA Ames file is kept
 where the time axis has no reference time

---
 nappy/nc_interface/na_content_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index e70434c..66e45c6 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -797,7 +797,8 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
                 msg = warning_message
                 log.info(msg)
                 self.output_message.append(msg)
-                self.na_dict["DATE"] = [999] * 3 
+                # A time axis without reference time: keep existing DATE, if any
+                self.na_dict.setdefault("DATE", [999] * 3)
 
         else: 
             if not "DATE" in self.na_dict:
-- 
2.43.0


From de174045fbf5cad46689d1a77815184cc482d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 50/77] fix: missing values of variables that hold times stay
 missing instead of becoming the reference date

---
 nappy/nc_interface/nc_to_na.py     |  6 +++++-
 nappy/nc_interface/xarray_utils.py | 10 +++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 364cb4a..0ab3eb9 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -67,7 +67,11 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
         """
         exclude_vars = exclude_vars or []
 
-        ds = xr.open_dataset(self.nc_file, use_cftime=True, decode_timedelta=False)
+        # Data variables that hold times stay numbers, so that missing values stay missing
+        with xr.open_dataset(self.nc_file, decode_times=False) as raw:
+            decode_times = {var_id: var_id in raw.dims or raw[var_id].ndim == 0 for var_id in raw.variables}
+
+        ds = xr.open_dataset(self.nc_file, decode_times=decode_times, use_cftime=True, decode_timedelta=False)
         xr_variables = []
 
         # Make sure var_ids is a list
diff --git a/nappy/nc_interface/xarray_utils.py b/nappy/nc_interface/xarray_utils.py
index 6b93d3e..c6d3a54 100644
--- a/nappy/nc_interface/xarray_utils.py
+++ b/nappy/nc_interface/xarray_utils.py
@@ -334,20 +334,16 @@ def getArrayAsList(da, missing_value=None, handle_datetimes=True):
     """
     if is_time(da, test_by_values=True) and handle_datetimes:
         arr = datetimes_to_nums(da)
-
-    elif missing_value is not None:
+    else:
         arr = resolve_array(da.data)
+
+    if missing_value is not None:
         found_nans = np.isnan(arr)
 
         if found_nans.any():
             # Not in single precision, where the missing value may become another one
             arr = np.where(found_nans, missing_value, arr.astype("float64"))
 
-    else:
-        arr = da.data
-
-    arr = resolve_array(arr)
-
     return arr.tolist()
 
 
-- 
2.43.0


From 5b63583c20566f75359567ab637fe9ffc4829016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 51/77] fix: restore the line endings of two files

---
 nappy/nappy_api.py             | 852 ++++++++++++++++-----------------
 nappy/nc_interface/na_to_nc.py | 224 ++++-----
 2 files changed, 538 insertions(+), 538 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 267ee9b..5af56ab 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -1,426 +1,426 @@
-"""
-nappy_api.py
-============
-
-Top-level API module that allows user to access most of the useful stuff in
-nappy. API examples:
-
- 1. Working with NASA Ames file objects
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
- 3. Comparing NASA Ames files (and/or CSV files)
- 4. General NASA Ames utilities 
-
- 1. Working with NASA Ames file objects
-
-# Start python interactive shell
-$ python
-
-# Import the nappy package
-import nappy
-
-# Let's open a NASA Ames file and examine its contents
-f = nappy.openNAFile("data_files/2010.na")
-
-# Get number of header lines
-n_lines = f.getNumHeaderLines()
-
-# Get Organisation from header
-org = f.getOrg()
-# Get the Normal Comments (SCOM) lines.
-norm_comms = f.getNormalComments()
-
-# Get the Special Comments (SCOM) lines.
-spec_comms = f.getSpecialComments()
-
-# Get a list of metadata for all main (non-auxiliary or independent) variables
-var_list = getVariables()
-
-# Get Auxiliary variable metadata for auxiliary variable number 2
-(variable, units, miss, scale) = f.getAuxVariable(2)
-
-# Get scale factor for primary variable number 3
-scale_factor = f.getScaleFactor(3)
-
-# Get missing value for primary variable number 1
-missing = f.getMissingValue(1)
-
-# Let's get the contents dictionary of the whole file
-na_dict = f.getNADict()
-
-# Let's write the na_dict object to a new NASA Ames file
-fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
-fout.write()
-fout.close()
-
- 2. Converting between formats (NASA Ames, NetCDF and CSV)
-
-# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
-glob_atts = [("Project", "Really important scientific project involving worms"),
-             ("Errata": "I meant worm holes!")]
-na_file = "data_files/1020.na"
-nc_file = "test_outputs/try_1020.nc"
-nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
-
-# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
-nappy.convertNAToCSV(na_file, annotation=True)
-
-# Let's read a NetCDF and write one (or more) output NASA Ames files,
-# but only including and variables "temp" and "ozone". Also let's write 
-# the output using tabs as the delimiters and a float format of "%6.3f".
-nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
-              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
-  
-# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
-nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
-                     no_header=True)
-
-# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
-# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
-# We also want to instruct nappy to overwrite the content of its 
-# MNAME (Mission Name) header line with our specific mission name.
-# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
-# because we know it is compatible.
-nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
-              na_file="test_outputs/xr_to_na.na", 
-              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
-              requested_ffi=2310)
-
-# Let's take a list of Xarray variables and a global attributes list and write
-# them to a CSV file.
-nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
-
-# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
-nappy.writeNADictToNC(na_dict, nc_file, mode="w")
-
-# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
-nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
-
-# Now let's read in a NASA Ames file and convert the contents in-memory into
-# Xarray objects so that we can manipulate them with NetCDF-compatible tools
-(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
-
-# Actually, I only want to get a single variable from that file, so I'll try
-temp_var = getXarrayVariableFromNA(na_file, "temperature")
-
- 3. Comparing NASA Ames files (and/or CSV files)
-
-# I'd like to compare a NASA Ames and CSV file to check they are the same.
-# It will allow for different formatting of numbers as long as the values 
-# are the same. Compare both header and body by setting as True (default).
-result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
-            number_clever=True, delimiter_1="    ", delimiter_2=",")
-
- 4. General NASA Ames utilities 
-
-# Get the FFI from a NASA Ames file
-ffi = nappy.readFFI(na_file)
-
-# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
-ffi = nappy.chooseFFI(na_dict)
-
-
-"""
-
-# Import standard library modules
-import logging
-log = logging.getLogger(__name__)
-
-# Import local modules
-import nappy.utils.common_utils
-import nappy.utils.compare_na
-import nappy.utils.text_parser
-
-# Bring some utils into the API
-compareNA = nappy.utils.compare_na.compareNA
-readFFI = nappy.utils.common_utils.readFFI
-chooseFFI = nappy.utils.common_utils.chooseFFI
-getNAFileClass = nappy.utils.common_utils.getNAFileClass
-getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
-
-__version__ = nappy.utils.common_utils.getVersion()
-default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
-default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
-
-
-def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
-               var_and_units_callback=None):
-    """
-    Function wrapper around the NASA Ames File classes. Any NASA Ames
-    file can be opened through this function and the appropriate read or
-    write NASA Ames File class instance is returned.
-    """
-    if mode == "r":
-        ffi = readFFI(filename, ignore_header_lines)
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, ignore_header_lines, mode,
-                        var_and_units_callback=var_and_units_callback)
-
-    elif mode == "w":
-        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
-            ffi = na_dict['FFI']
-        else:
-            ffi = chooseFFI(na_dict)
-            na_dict['FFI'] = ffi
-            log.info("\nFormat identified as: %s" % ffi)
-
-        na_class = getNAFileClass(ffi)
-        return na_class(filename, mode=mode, na_dict=na_dict)
-    else:
-        raise Exception("File mode not recognised '" + mode + "'.")
-
-
-def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True,
-                 rename_variables=None):
-    """
-    Takes a NASA Ames file and converts to a NetCDF file. Options are:
-
-    na_file - the input NASA Ames file.
-    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
-              file with ".nc").
-    mode - is the file mode, either "w" for write or "a" for append
-    variables - is a list of variable names that you wish to be converted. If not set then 
-              nappy will attempt to convert all files.
-    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
-              If not set then nappy will use any compatible variables it finds as 
-              auxiliary variables.
-    global_attributes - is a list of global attributes to add to the output file.
-    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
-              should use to rename variables before it writes them to file.  
-    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
-              use for time units if there is a valid time axis.
-    time_warning - suppresses the time units warning for invalid time units if set to False.
-    """
-    global_attributes = global_attributes or []
-    rename_variables = rename_variables or {}
-
-    arg_dict = vars()
-
-    for arg_out in ("nc_file", "mode"):
-        del arg_dict[arg_out]
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
-    convertor.convert()
-
-    if nc_file == None:
-        nc_file = getFileNameWithNewExtension(na_file, "nc")
-
-    convertor.writeNCFile(nc_file, mode)
-    return nc_file   
-  
-
-def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
-    """
-    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
-    input file except that commas are used as the delimiter. Arguments are:
-
-    na_file - NASA Ames file path
-    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
-    annotation - if set to True write the output file with an additional left-hand column 
-                 describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    fin = openNAFile(na_file)
-    fin.readData()
-    na_dict = fin.getNADict()
-    fin.close()
-
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(na_file, "csv")
-
-    fout = openNAFile(csv_file, "w", na_dict=na_dict)
-    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
-    fout.close()
-    return True
-
-
-def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
-            only_return_file_names=False, exclude_vars=None,
-            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
-            size_limit=None, annotation=False, no_header=False,
-            ):
-    """
-    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
-    Arguments are:
-
-    nc_file - is the name of input file (NetCDF).
-    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
-              file with ".na"). If multiple files produced then this name will be used 
-              as the base name.
-    var_ids - is a list of variables (as ids) to include in the output file(s).
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
-              files. Typically the keys are in:  
-              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
-    only_return_file_names - if set to True then only return a list of file names that 
-              would be written (i.e. don't convert actual file).
-    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
-              that there are only limited options available depending on the data 
-              structures found.
-    delimiter - the delimiter you wish to use between data items in the output file such 
-              as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-              formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand column 
-              describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-    exclude_vars = exclude_vars or []
-
-    arg_dict = vars()
-    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
-                    "size_limit", "annotation", "no_header"):
-        del arg_dict[arg_out]
-
-    if na_file == None:
-        na_file =  getFileNameWithNewExtension(nc_file, "na")
-
-    import nappy.nc_interface.nc_to_na
-    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
-    convertor.convert()
-
-    # If user only wants files then only give them that
-    if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
-    else:
-        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                               size_limit=size_limit, annotation=annotation, no_header=no_header)
-        log.info(convertor.output_message)
-        output_files_written = convertor.output_files_written
-        log.info(output_files_written)
-        return output_files_written
-
-    
-def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
-    """
-    Reads in a NetCDF file and writes the data out to a CSV file following the
-    NASA Ames standard.
-    """
-    if csv_file == None:
-        csv_file = getFileNameWithNewExtension(nc_file, "csv")
-
-    arg_dict["na_file"] = csv_file
-    arg_dict["delimiter"] = ","
-  
-    return convertNCToNA(*[nc_file], **arg_dict)
-    
-
-def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
-              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
-              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
-              ):
-    """
-    Takes a list of Xarray variables and a list of global attributes and
-    writes them to one or more NASA Ames files. Arguments are:
- 
-    xr_vars - is a list of Xarray variables
-    global_attributes - is a list of (key, value) pairs for header
-    na_file - is the name of output file. If multiple files produced then this name will be used
-              as the base name.
-    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
-                output files. Typically the keys are in:  
-                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
-    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
-                Note that there are only limited options available depending on the data 
-                structures found.
-    delimiter - the delimiter you wish to use between data items in the output file 
-                such as "   ", "\t" or ",".
-    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
-                formatting floats when written to file.
-    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
-    annotation - if set to True write the output file with an additional left-hand 
-                column describing the contents of each header line.
-    no_header - if set to True then only the data blocks are written to file.
-    """
-    na_items_to_override = na_items_to_override or {}
-
-    import nappy.nc_interface.xarray_objs_to_na_files
-    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
-                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
-                        )
-    convertor.convert()
-
-    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
-                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
-
-    return convertor.output_files_written 
-
-
-def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
-    """
-    Takes a list of Xarray variables and a global attributes list and
-    writes them to one or more CSV files.
-    """
-    arg_dict["delimiter"] = ","
-    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
-
-
-def writeNADictToNC(na_dict, nc_file, mode="w"):
-    """
-    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
-    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
-    Note that mode="a" might not always work.
-    """
-    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
-    import nappy.na_file.na_core
-    na_file_obj = nappy.na_file.na_core.NACore()
-    na_file_obj.setNADict(na_dict)
-    for key, value in na_file_obj.na_dict.items():
-        setattr(na_file_obj, key, value)
-
-    if na_file_obj.FFI is None:
-        na_file_obj.FFI = chooseFFI(na_dict)
-    na_file_obj.var_and_units_callback = None
-
-    # Fake up some required methods
-    def fakeCaller():pass
-    na_file_obj.readData = fakeCaller
-
-    import nappy.nc_interface.na_to_nc
-    convertor = nappy.nc_interface.na_to_nc.NAToNC(na_file_obj)
-    convertor.convert()
-
-    # Now write them out
-    convertor.writeNCFile(nc_file, mode)
-    return True
-
-
-def readXarrayObjectsFromNA(na_file):
-    """
-    Reads the NASA Ames file and converts to Xarray objects.
-    Returns a tuple containing:
-      * a list of primary NASA Ames variables as Xarray variables
-      * a list of auxiliary NASA Ames variables as Xarray variables,
-      * a list of global attributes
-    """
-    xr_var_list = []
-    global_attributes = {}
-
-    # Open the NA file
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
-    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
-
-    return (xr_vars_primary, xr_vars_aux, global_attributes)
-
-
-def getXarrayVariableFromNA(na_file, var):
-    """
-    Returns a Xarray variable object (TransientVariable) identified by the var argument which
-    can either be an integer index in the list of variables or the name of the variable.
-    The variable is created from the variables found in the NASA Ames file na_file.
-    """
-    na_file_obj = openNAFile(na_file)
-
-    import nappy.nc_interface.na_to_xarray
-    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
-    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
-
-    # Must now be a primary var
-    return xr_primary_vars[0]
+"""
+nappy_api.py
+============
+
+Top-level API module that allows user to access most of the useful stuff in
+nappy. API examples:
+
+ 1. Working with NASA Ames file objects
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+ 3. Comparing NASA Ames files (and/or CSV files)
+ 4. General NASA Ames utilities 
+
+ 1. Working with NASA Ames file objects
+
+# Start python interactive shell
+$ python
+
+# Import the nappy package
+import nappy
+
+# Let's open a NASA Ames file and examine its contents
+f = nappy.openNAFile("data_files/2010.na")
+
+# Get number of header lines
+n_lines = f.getNumHeaderLines()
+
+# Get Organisation from header
+org = f.getOrg()
+# Get the Normal Comments (SCOM) lines.
+norm_comms = f.getNormalComments()
+
+# Get the Special Comments (SCOM) lines.
+spec_comms = f.getSpecialComments()
+
+# Get a list of metadata for all main (non-auxiliary or independent) variables
+var_list = getVariables()
+
+# Get Auxiliary variable metadata for auxiliary variable number 2
+(variable, units, miss, scale) = f.getAuxVariable(2)
+
+# Get scale factor for primary variable number 3
+scale_factor = f.getScaleFactor(3)
+
+# Get missing value for primary variable number 1
+missing = f.getMissingValue(1)
+
+# Let's get the contents dictionary of the whole file
+na_dict = f.getNADict()
+
+# Let's write the na_dict object to a new NASA Ames file
+fout = openNAFile("test_outputs/mytest.na", mode="w", na_dict=na_dict)
+fout.write()
+fout.close()
+
+ 2. Converting between formats (NASA Ames, NetCDF and CSV)
+
+# Let's convert a NASA Ames file into a NetCDF file, and add some of our own global attributes
+glob_atts = [("Project", "Really important scientific project involving worms"),
+             ("Errata": "I meant worm holes!")]
+na_file = "data_files/1020.na"
+nc_file = "test_outputs/try_1020.nc"
+nappy.convertNAToNC(na_file, nc_file, global_attributes=glob_atts)
+
+# Let's convert a NASA Ames file to a CSV and add an annotation column to explain the header
+nappy.convertNAToCSV(na_file, annotation=True)
+
+# Let's read a NetCDF and write one (or more) output NASA Ames files,
+# but only including and variables "temp" and "ozone". Also let's write 
+# the output using tabs as the delimiters and a float format of "%6.3f".
+nappy.convertNCToNA("data_files/test1.nc", "test_outputs/test1nc.na", 
+              var_ids=("temp", "ozone"), delimiter="\t", float_format="%6.3f")
+  
+# Let's convert a NetCDF file to one (or more) CSV files and don't write the header at all
+nappy.convertNCToCSV("data_files/test1.nc", "test_outputs/test1nc_no_header.csv",
+                     no_header=True)
+
+# Let's take some in-memory Xarray objects and write them to one, or more, NASA Ames file(s).
+# We need to give it a list of Xarray variables (Data Arrays) and a global attributes list of tuples/lists.
+# We also want to instruct nappy to overwrite the content of its 
+# MNAME (Mission Name) header line with our specific mission name.
+# Also, tell nappy to write the output to NASA Ames file format index (FFI) 2310
+# because we know it is compatible.
+nappy.convertXarrayObjectsToNA([xr_var_1, xr_var_2], [("Institute", "British Atmospheric Data Centre")], 
+              na_file="test_outputs/xr_to_na.na", 
+              na_items_to_override={"MNAME": "Atlantic Divergence Mission 2009"}, 
+              requested_ffi=2310)
+
+# Let's take a list of Xarray variables and a global attributes list and write
+# them to a CSV file.
+nappy.convertXarrayObjectsToCSV(xr_vars, global_atttributes, csv_file)
+
+# Let's take a NASA Ames dictionary object, and write it to a NetCDF file
+nappy.writeNADictToNC(na_dict, nc_file, mode="w")
+
+# Let's try and write a second na_dict object to the same NetCDF file using mode="a".
+nappy.writeNADictToNC(na_dict_2, nc_file, mode="a")
+
+# Now let's read in a NASA Ames file and convert the contents in-memory into
+# Xarray objects so that we can manipulate them with NetCDF-compatible tools
+(xr_vars_primary, xr_vars_aux, global_attributes) = nappy.readXarrayObjectsFromNA(na_file)
+
+# Actually, I only want to get a single variable from that file, so I'll try
+temp_var = getXarrayVariableFromNA(na_file, "temperature")
+
+ 3. Comparing NASA Ames files (and/or CSV files)
+
+# I'd like to compare a NASA Ames and CSV file to check they are the same.
+# It will allow for different formatting of numbers as long as the values 
+# are the same. Compare both header and body by setting as True (default).
+result = nappy.compareNA(na_file, csv_file, header=True, body=True, 
+            number_clever=True, delimiter_1="    ", delimiter_2=",")
+
+ 4. General NASA Ames utilities 
+
+# Get the FFI from a NASA Ames file
+ffi = nappy.readFFI(na_file)
+
+# Given a NASA Ames dictionary (na_dict) get an appropriate FFI.
+ffi = nappy.chooseFFI(na_dict)
+
+
+"""
+
+# Import standard library modules
+import logging
+log = logging.getLogger(__name__)
+
+# Import local modules
+import nappy.utils.common_utils
+import nappy.utils.compare_na
+import nappy.utils.text_parser
+
+# Bring some utils into the API
+compareNA = nappy.utils.compare_na.compareNA
+readFFI = nappy.utils.common_utils.readFFI
+chooseFFI = nappy.utils.common_utils.chooseFFI
+getNAFileClass = nappy.utils.common_utils.getNAFileClass
+getFileNameWithNewExtension = nappy.utils.common_utils.getFileNameWithNewExtension
+
+__version__ = nappy.utils.common_utils.getVersion()
+default_delimiter = nappy.utils.common_utils.getDefault("default_delimiter")
+default_float_format = nappy.utils.common_utils.getDefault("default_float_format")
+
+
+def openNAFile(filename, mode="r", na_dict=None, ignore_header_lines=0,
+               var_and_units_callback=None):
+    """
+    Function wrapper around the NASA Ames File classes. Any NASA Ames
+    file can be opened through this function and the appropriate read or
+    write NASA Ames File class instance is returned.
+    """
+    if mode == "r":
+        ffi = readFFI(filename, ignore_header_lines)
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, ignore_header_lines, mode,
+                        var_and_units_callback=var_and_units_callback)
+
+    elif mode == "w":
+        if 'FFI' in na_dict and type(na_dict['FFI']) == type(3):
+            ffi = na_dict['FFI']
+        else:
+            ffi = chooseFFI(na_dict)
+            na_dict['FFI'] = ffi
+            log.info("\nFormat identified as: %s" % ffi)
+
+        na_class = getNAFileClass(ffi)
+        return na_class(filename, mode=mode, na_dict=na_dict)
+    else:
+        raise Exception("File mode not recognised '" + mode + "'.")
+
+
+def convertNAToNC(na_file, nc_file=None, mode="w", variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True,
+                 rename_variables=None):
+    """
+    Takes a NASA Ames file and converts to a NetCDF file. Options are:
+
+    na_file - the input NASA Ames file.
+    nc_file - name for the output NetCDF file (default is to replace ".na" from NASA Ames 
+              file with ".nc").
+    mode - is the file mode, either "w" for write or "a" for append
+    variables - is a list of variable names that you wish to be converted. If not set then 
+              nappy will attempt to convert all files.
+    aux_var_list - is a list of auxiliary variables names that you wish to be converted. 
+              If not set then nappy will use any compatible variables it finds as 
+              auxiliary variables.
+    global_attributes - is a list of global attributes to add to the output file.
+    rename_variables - is a dictionary of {old_name: new_name} variable ID pairs that nappy 
+              should use to rename variables before it writes them to file.  
+    time_units - is a valid time units string such as "hours since 2003-04-30 10:00:00" to 
+              use for time units if there is a valid time axis.
+    time_warning - suppresses the time units warning for invalid time units if set to False.
+    """
+    global_attributes = global_attributes or []
+    rename_variables = rename_variables or {}
+
+    arg_dict = vars()
+
+    for arg_out in ("nc_file", "mode"):
+        del arg_dict[arg_out]
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(*[], **arg_dict)
+    convertor.convert()
+
+    if nc_file == None:
+        nc_file = getFileNameWithNewExtension(na_file, "nc")
+
+    convertor.writeNCFile(nc_file, mode)
+    return nc_file   
+  
+
+def convertNAToCSV(na_file, csv_file=None, annotation=False, no_header=False):
+    """
+    Reads in a NASA Ames file and writes it out a new CSV file which is identical to the
+    input file except that commas are used as the delimiter. Arguments are:
+
+    na_file - NASA Ames file path
+    csv_file - CSV file path (default is to replace ".na" from NASA Ames file with ".csv").
+    annotation - if set to True write the output file with an additional left-hand column 
+                 describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    fin = openNAFile(na_file)
+    fin.readData()
+    na_dict = fin.getNADict()
+    fin.close()
+
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(na_file, "csv")
+
+    fout = openNAFile(csv_file, "w", na_dict=na_dict)
+    fout.write(delimiter=",", annotation=annotation, no_header=no_header)
+    fout.close()
+    return True
+
+
+def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None,
+            only_return_file_names=False, exclude_vars=None,
+            requested_ffi=None, delimiter=default_delimiter, float_format=default_float_format, 
+            size_limit=None, annotation=False, no_header=False,
+            ):
+    """
+    Takes a NetCDF file and converts the contents to one or more NASA Ames files. 
+    Arguments are:
+
+    nc_file - is the name of input file (NetCDF).
+    na_file - is the name of output file (default is to replace ".nc" from NASA Ames 
+              file with ".na"). If multiple files produced then this name will be used 
+              as the base name.
+    var_ids - is a list of variables (as ids) to include in the output file(s).
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in output 
+              files. Typically the keys are in:  
+              ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME".)
+    only_return_file_names - if set to True then only return a list of file names that 
+              would be written (i.e. don't convert actual file).
+    exclude_vars - is a list of variables (as ids) to exclude in the output file(s).
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. Note 
+              that there are only limited options available depending on the data 
+              structures found.
+    delimiter - the delimiter you wish to use between data items in the output file such 
+              as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+              formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand column 
+              describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+    exclude_vars = exclude_vars or []
+
+    arg_dict = vars()
+    for arg_out in ("na_file", "only_return_file_names", "delimiter", "float_format", 
+                    "size_limit", "annotation", "no_header"):
+        del arg_dict[arg_out]
+
+    if na_file == None:
+        na_file =  getFileNameWithNewExtension(nc_file, "na")
+
+    import nappy.nc_interface.nc_to_na
+    convertor = nappy.nc_interface.nc_to_na.NCToNA(*[], **arg_dict)
+    convertor.convert()
+
+    # If user only wants files then only give them that
+    if only_return_file_names:
+        return convertor.constructNAFileNames(na_file)
+    else:
+        convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                               size_limit=size_limit, annotation=annotation, no_header=no_header)
+        log.info(convertor.output_message)
+        output_files_written = convertor.output_files_written
+        log.info(output_files_written)
+        return output_files_written
+
+    
+def convertNCToCSV(nc_file, csv_file=None, **arg_dict):
+    """
+    Reads in a NetCDF file and writes the data out to a CSV file following the
+    NASA Ames standard.
+    """
+    if csv_file == None:
+        csv_file = getFileNameWithNewExtension(nc_file, "csv")
+
+    arg_dict["na_file"] = csv_file
+    arg_dict["delimiter"] = ","
+  
+    return convertNCToNA(*[nc_file], **arg_dict)
+    
+
+def convertXarrayObjectsToNA(xr_vars, global_attributes, na_file, 
+              na_items_to_override=None, requested_ffi=None, delimiter=default_delimiter, 
+              float_format=default_float_format, size_limit=None, annotation=False, no_header=False,
+              ):
+    """
+    Takes a list of Xarray variables and a list of global attributes and
+    writes them to one or more NASA Ames files. Arguments are:
+ 
+    xr_vars - is a list of Xarray variables
+    global_attributes - is a list of (key, value) pairs for header
+    na_file - is the name of output file. If multiple files produced then this name will be used
+              as the base name.
+    na_items_to_override - is a dictionary of {key: value} pairs to overwrite in 
+                output files. Typically the keys are in:  
+                ("DATE", "RDATE", "ANAME", "MNAME","ONAME", "ORG", "SNAME", "VNAME", "SCOM", "NCOM".)
+    requested_ffi - is the NASA Ames File Format Index (FFI) you wish to write to. 
+                Note that there are only limited options available depending on the data 
+                structures found.
+    delimiter - the delimiter you wish to use between data items in the output file 
+                such as "   ", "\t" or ",".
+    float_format - a python formatting string such as "%s", "%.10g" or "%5.2f" used for 
+                formatting floats when written to file.
+    size_limit - if format FFI is 1001 then chop files up into size_limit rows of data.
+    annotation - if set to True write the output file with an additional left-hand 
+                column describing the contents of each header line.
+    no_header - if set to True then only the data blocks are written to file.
+    """
+    na_items_to_override = na_items_to_override or {}
+
+    import nappy.nc_interface.xarray_objs_to_na_files
+    convertor = nappy.nc_interface.xarray_objs_to_na_files.XarrayObjectsToNAFile(xr_vars, global_attributes=global_attributes, 
+                        na_items_to_override=na_items_to_override, requested_ffi=requested_ffi,
+                        )
+    convertor.convert()
+
+    na_files = convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
+                                      size_limit=size_limit, annotation=annotation, no_header=no_header)
+
+    return convertor.output_files_written 
+
+
+def convertXarrayObjectsToCSV(xr_vars, global_attributes, csv_file, **arg_dict):
+    """
+    Takes a list of Xarray variables and a global attributes list and
+    writes them to one or more CSV files.
+    """
+    arg_dict["delimiter"] = ","
+    return convertXarrayObjectsToNA(*[xr_vars, global_attributes, csv_file], **arg_dict)
+
+
+def writeNADictToNC(na_dict, nc_file, mode="w"):
+    """
+    Writes an NASA Ames dictionary object called na_dict to a NetCDF file called nc_file.
+    Can set mode="a" or mode="w" to either append to existing nc_file or write new one.
+    Note that mode="a" might not always work.
+    """
+    # Note, this needs to pretend that the na_dict exists, do this by instantiating NACore and cheating...
+    import nappy.na_file.na_core
+    na_file_obj = nappy.na_file.na_core.NACore()
+    na_file_obj.setNADict(na_dict)
+    for key, value in na_file_obj.na_dict.items():
+        setattr(na_file_obj, key, value)
+
+    if na_file_obj.FFI is None:
+        na_file_obj.FFI = chooseFFI(na_dict)
+    na_file_obj.var_and_units_callback = None
+
+    # Fake up some required methods
+    def fakeCaller():pass
+    na_file_obj.readData = fakeCaller
+
+    import nappy.nc_interface.na_to_nc
+    convertor = nappy.nc_interface.na_to_nc.NAToNC(na_file_obj)
+    convertor.convert()
+
+    # Now write them out
+    convertor.writeNCFile(nc_file, mode)
+    return True
+
+
+def readXarrayObjectsFromNA(na_file):
+    """
+    Reads the NASA Ames file and converts to Xarray objects.
+    Returns a tuple containing:
+      * a list of primary NASA Ames variables as Xarray variables
+      * a list of auxiliary NASA Ames variables as Xarray variables,
+      * a list of global attributes
+    """
+    xr_var_list = []
+    global_attributes = {}
+
+    # Open the NA file
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj)
+    (xr_vars_primary, xr_vars_aux, global_attributes) = convertor.convert()
+
+    return (xr_vars_primary, xr_vars_aux, global_attributes)
+
+
+def getXarrayVariableFromNA(na_file, var):
+    """
+    Returns a Xarray variable object (TransientVariable) identified by the var argument which
+    can either be an integer index in the list of variables or the name of the variable.
+    The variable is created from the variables found in the NASA Ames file na_file.
+    """
+    na_file_obj = openNAFile(na_file)
+
+    import nappy.nc_interface.na_to_xarray
+    convertor = nappy.nc_interface.na_to_xarray.NADictToXarrayObjects(na_file_obj, variables=[var])
+    (xr_primary_vars, xr_aux_vars, global_attributes) = convertor.convert()
+
+    # Must now be a primary var
+    return xr_primary_vars[0]
diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index e4882ec..f2c99b7 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -1,112 +1,112 @@
-#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
-#   This software may be distributed under the terms of the
-#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
-
-"""
-na_to_nc.py
-===========
-
-Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
-
-"""
-
-# Imports from python standard library
-import logging
-from collections.abc import Sequence
-
-# Third-party imports
-import xarray as xr
-import numpy as np
-
-# Import from nappy package
-import nappy.nc_interface.na_to_xarray
-
-log = logging.getLogger(__name__)
-
-
-class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
-    """
-    Converts a NASA Ames file to a NetCDF file.
-    """
-    
-    def __init__(self, na_file, variables=None, aux_variables=None,
-                 global_attributes=None,
-                 time_units=None, time_warning=True, 
-                 rename_variables=None):
-        """
-        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
-        and can be either a NASA Ames file object or the name of a NASA AMES file.
-        Typical usage is:
-        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
-        >>>    c = na_to_nc.NAToNC("old_file.na") 
-        >>>    c.convert()
-        >>>    c.writeNCFile("new_file.nc")         
-        """
-        if global_attributes is None:
-            global_attributes = []
-
-        if not rename_variables:
-            rename_variables = {}
-
-        # First open na_file if it is a file rather than an na_file object
-        na_file_obj = na_file
-        if type(na_file_obj) == type("string"):
-            na_file_obj = nappy.openNAFile(na_file_obj)
-
-        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
-                 aux_variables=aux_variables,
-                 global_attributes=global_attributes,
-                 time_units=time_units, time_warning=time_warning, 
-                 rename_variables=rename_variables)
-
-
-    def fix_ints(self, dct, key):
-        """
-        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
-        (rather than 2LL (e.g. long longs)).
-
-        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
-        returns them.
-        """
-        def to_np_int(_value):
-            return np.int32(_value)
-
-        value = dct.get(key)
-
-        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
-            dct[key] = [to_np_int(v) for v in value]
-        elif isinstance(value, int):
-            dct[key] = to_np_int(value)
-
-    def fix_attrs(self, obj):
-        """
-        Check each attr of the object, and fix integer/integer-sequence values.
-        """
-        for key in obj.attrs:
-            self.fix_ints(obj.attrs, key)
-
-    def writeNCFile(self, file_name, mode="w"):
-        """
-        Writes the NASA Ames content that has been converted into Xarray objects to a
-        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
-        can add the data to an existing file.
-        """
-        if not self.converted:
-            self.convert()
-
-        # Build an Xarray Dataset and then write it to NetCDF
-        combined_var_list = self.xr_variables + self.xr_aux_variables
-
-        # Fix integers in attributes
-        [self.fix_attrs(v) for v in combined_var_list]
-
-        # Create the Datset
-        variables = {da.name: da for da in combined_var_list}
-        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
-        self.fix_attrs(ds)
-
-        # Write to NetCDF
-        ds.to_netcdf(file_name, mode=mode)
-
-        log.info(f"NetCDF file '{file_name}' written successfully.")
-        return True
+#   Copyright (C) 2004 CCLRC & NERC( Natural Environment Research Council ).
+#   This software may be distributed under the terms of the
+#   Q Public License, version 1.0 or later. http://ndg.nerc.ac.uk/public_docs/QPublic_license.txt
+
+"""
+na_to_nc.py
+===========
+
+Contains the NAToNC class for converting a NASA Ames file to a NetCDF file.
+
+"""
+
+# Imports from python standard library
+import logging
+from collections.abc import Sequence
+
+# Third-party imports
+import xarray as xr
+import numpy as np
+
+# Import from nappy package
+import nappy.nc_interface.na_to_xarray
+
+log = logging.getLogger(__name__)
+
+
+class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
+    """
+    Converts a NASA Ames file to a NetCDF file.
+    """
+    
+    def __init__(self, na_file, variables=None, aux_variables=None,
+                 global_attributes=None,
+                 time_units=None, time_warning=True, 
+                 rename_variables=None):
+        """
+        Sets up instance variables. Note that the argument 'na_file' has a relaxes definition
+        and can be either a NASA Ames file object or the name of a NASA AMES file.
+        Typical usage is:
+        >>>    import nappy.nc_interface.na_to_nc as na_to_nc
+        >>>    c = na_to_nc.NAToNC("old_file.na") 
+        >>>    c.convert()
+        >>>    c.writeNCFile("new_file.nc")         
+        """
+        if global_attributes is None:
+            global_attributes = []
+
+        if not rename_variables:
+            rename_variables = {}
+
+        # First open na_file if it is a file rather than an na_file object
+        na_file_obj = na_file
+        if type(na_file_obj) == type("string"):
+            na_file_obj = nappy.openNAFile(na_file_obj)
+
+        nappy.nc_interface.na_to_xarray.NADictToXarrayObjects.__init__(self, na_file_obj, variables=variables, 
+                 aux_variables=aux_variables,
+                 global_attributes=global_attributes,
+                 time_units=time_units, time_warning=time_warning, 
+                 rename_variables=rename_variables)
+
+
+    def fix_ints(self, dct, key):
+        """
+        Convert integer values in a dict to numpy.int32s - so they just show up as integers in ncdump
+        (rather than 2LL (e.g. long longs)).
+
+        Fixes the those dictionary items: either integers or a sequence of integers, then converts and
+        returns them.
+        """
+        def to_np_int(_value):
+            return np.int32(_value)
+
+        value = dct.get(key)
+
+        if isinstance(value, Sequence) and not isinstance(value, str) and all([isinstance(v, int) for v in value]):
+            dct[key] = [to_np_int(v) for v in value]
+        elif isinstance(value, int):
+            dct[key] = to_np_int(value)
+
+    def fix_attrs(self, obj):
+        """
+        Check each attr of the object, and fix integer/integer-sequence values.
+        """
+        for key in obj.attrs:
+            self.fix_ints(obj.attrs, key)
+
+    def writeNCFile(self, file_name, mode="w"):
+        """
+        Writes the NASA Ames content that has been converted into Xarray objects to a
+        NetCDF file of name 'file_name'. Note that mode can be set to append so you 
+        can add the data to an existing file.
+        """
+        if not self.converted:
+            self.convert()
+
+        # Build an Xarray Dataset and then write it to NetCDF
+        combined_var_list = self.xr_variables + self.xr_aux_variables
+
+        # Fix integers in attributes
+        [self.fix_attrs(v) for v in combined_var_list]
+
+        # Create the Datset
+        variables = {da.name: da for da in combined_var_list}
+        ds = xr.Dataset(variables, attrs=dict(self.global_attributes))
+        self.fix_attrs(ds)
+
+        # Write to NetCDF
+        ds.to_netcdf(file_name, mode=mode)
+
+        log.info(f"NetCDF file '{file_name}' written successfully.")
+        return True
-- 
2.43.0


From 1fa4a3309d4a24c78908ed3d8408516d3cbc4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 52/77] fix: the names-only mode lists the parts of files that
 are split by size limit

---
 nappy/nappy_api.py                 |  2 +-
 nappy/nc_interface/xarray_to_na.py | 43 +++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/nappy/nappy_api.py b/nappy/nappy_api.py
index 5af56ab..5fe4d4c 100644
--- a/nappy/nappy_api.py
+++ b/nappy/nappy_api.py
@@ -285,7 +285,7 @@ def convertNCToNA(nc_file, na_file=None, var_ids=None, na_items_to_override=None
 
     # If user only wants files then only give them that
     if only_return_file_names:
-        return convertor.constructNAFileNames(na_file)
+        return convertor.constructNAFileNames(na_file, size_limit=size_limit)
     else:
         convertor.writeNAFiles(na_file, delimiter=delimiter, float_format=float_format, 
                                size_limit=size_limit, annotation=annotation, no_header=no_header)
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 3020df2..6518b3d 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -196,10 +196,11 @@ class XarrayToNA:
 	     
         return ret_variables
 
-    def constructNAFileNames(self, na_file=None):
+    def constructNAFileNames(self, na_file=None, size_limit=None):
         """
         Works out what the file names of the output NA files will be and 
-        returns a list of them.
+        returns a list of them. If size_limit is given then the files that
+        it splits appear as the names of their parts.
         """
         if not self.converted:
             self.convert()
@@ -222,9 +223,36 @@ class XarrayToNA:
 
             for file_counter in range(1, len(self.na_dict_list) + 1):
                 file_names.append(f"{base_name}_{file_counter}{extension}")
+
+        if size_limit is not None:
+            whole_names, file_names = file_names, []
+
+            for (na_dict, var_ids), file_name in zip(self.na_dict_list, whole_names):
+                if self._isAboveSizeLimit(na_dict, size_limit):
+                    file_names.extend(self._getSubsetFileNames(na_dict, file_name, size_limit))
+                else:
+                    file_names.append(file_name)
 	    
         return file_names
 
+    def _isAboveSizeLimit(self, na_dict, size_limit):
+        """
+        Returns True if the content has to be split on size limit (only FFI 1001 can be).
+        """
+        return size_limit is not None and (na_dict["FFI"] == 1001 and len(na_dict["V"][0]) > size_limit)
+
+    def _getSubsetFileNames(self, na_dict, file_name, size_limit):
+        """
+        Returns the list of names of the files that the content is split into.
+        """
+        if size_limit < 1:
+            raise ValueError("The size limit must be at least one row, not: %s" % size_limit)
+
+        (base_name, extension) = os.path.splitext(file_name)
+        nvol = -(-len(na_dict["V"][0]) // size_limit)
+
+        return [f"{base_name}-{ivol:03d}{extension}" for ivol in range(1, nvol + 1)]
+
     def writeNAFiles(self, na_file=None, delimiter=default_delimiter, annotation=False,
                      float_format=default_float_format, size_limit=None, no_header=False):
         """
@@ -327,7 +355,7 @@ class XarrayToNA:
         
             # Cope with size limits if specified and FFI is 1001
             # Seems to be writing different chunks of a too long array to different na_dicts to then write to separate files.
-            if size_limit is not None and (this_na_dict["FFI"] == 1001 and len(this_na_dict["V"][0]) > size_limit):
+            if self._isAboveSizeLimit(this_na_dict, size_limit):
                 files_written = self._writeNAFileSubsetsWithinSizeLimit(this_na_dict, file_name, delimiter=delimiter,
                                                                         float_format=float_format, size_limit=size_limit,
                                                                         annotation=annotation, no_header=no_header)
@@ -388,11 +416,7 @@ class XarrayToNA:
         different files in a NASA Ames compliant way. 
         Returns list of file names of outputs written.
         """
-        if size_limit < 1:
-            raise ValueError("The size limit must be at least one row, not: %s" % size_limit)
-
-        file_names = []
-        (base_name, extension) = os.path.splitext(file_name)
+        file_names = self._getSubsetFileNames(this_na_dict, file_name, size_limit)
         var_list = this_na_dict["V"]
         array_length = len(var_list[0])
         nvol_info = divmod(array_length, size_limit)
@@ -422,8 +446,7 @@ class XarrayToNA:
             na_dict_copy = modifyNADictCopy(this_na_dict, current_block, 
                                                                       start, end, ivol, nvol)
             # Append a letter to the file name for writing this block to
-            file_name_plus_letter = f"{base_name}-{ivol:03d}{extension}"
-            file_names.append(file_name_plus_letter)
+            file_name_plus_letter = file_names[ivol - 1]
 
             # Write data to output file
             x = nappy.openNAFile(file_name_plus_letter, 'w', na_dict_copy)
-- 
2.43.0


From bfec235bbed5b5fb4eca24f9cf9069403e5b5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 53/77] fix: the -l option of nc2na and nc2csv is recognised

---
 nappy/script/nc2csv.py | 2 +-
 nappy/script/nc2na.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index ee45ec1..f6ec60e 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -94,7 +94,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index a83cb13..9f2f6f4 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -95,7 +95,7 @@ def parseArgs(args):
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
-        elif arg == "--limit_ffi_1001_rows":
+        elif arg == "-l":
             a["size_limit"] = int(value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
-- 
2.43.0


From 710320baed304678ab81c512ec8ac1cf9f5e30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 54/77] fix: invalid option values of the command-line tools
 end with the usage message

---
 nappy/script/na2nc.py  | 14 ++++++++++++--
 nappy/script/nc2csv.py | 14 +++++++++++---
 nappy/script/nc2na.py  | 14 +++++++++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index 4299e90..316d563 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -46,6 +46,14 @@ def exitNicely(msg=""):
     sys.exit()
 
 
+def parseOption(parser, arg, value):
+    "Returns the parsed value of an option, or exits if it is not valid."
+    try:
+        return parser(value)
+    except Exception as e:
+        exitNicely("Invalid value for argument '%s': %s" % (arg, e))
+
+
 def parseArgs(args):
     """
     Parses arguments and returns dictionary.
@@ -75,6 +83,8 @@ def parseArgs(args):
         elif arg == "-o":
             a["nc_file"] = value
         elif arg == "-m":
+            if value not in ("w", "a"):
+                exitNicely("Invalid value for argument '%s': %s" % (arg, value))
             a["mode"] = value
         elif arg == "-v":
             a["variables"] = value.split(",")
@@ -83,13 +93,13 @@ def parseArgs(args):
             a["aux_variables"] = value.split(",")
             exitNicely("OPTION NOT IMPLEMENTED: %s : Not yet fully functional. Sorry." % arg)
         elif arg == "-g":
-            a["global_attributes"] = makeListFromCommaSepString(value)
+            a["global_attributes"] = parseOption(makeListFromCommaSepString, arg, value)
         elif arg == "-t":
             a["time_units"] = value
         elif arg == "-n":
             a["time_warning"] = False
         elif arg == "-r":
-            a["rename_variables"] = makeDictFromCommaSepString(value)
+            a["rename_variables"] = parseOption(makeDictFromCommaSepString, arg, value)
         else:
             exitNicely("Argument '" + arg + "' not recognised!")
 
diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index f6ec60e..89a166d 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -53,6 +53,14 @@ def exitNicely(msg=""):
     sys.exit()
 
 
+def parseOption(parser, arg, value):
+    "Returns the parsed value of an option, or exits if it is not valid."
+    try:
+        return parser(value)
+    except Exception as e:
+        exitNicely("Invalid value for argument '%s': %s" % (arg, e))
+
+
 def parseArgs(args):
     """
     Parses arguments and returns dictionary.
@@ -89,17 +97,17 @@ def parseArgs(args):
         elif arg == "-v":
             a["var_ids"] = value.split(",")
         elif arg == "--ffi":
-            a["requested_ffi"] = int(value)
+            a["requested_ffi"] = parseOption(int, arg, value)
         elif arg == "-f":
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
         elif arg == "-l":
-            a["size_limit"] = int(value)
+            a["size_limit"] = parseOption(int, arg, value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
         elif arg == "--overwrite-metadata":
-            a["na_items_to_override"] = makeDictFromCommaSepString(value)
+            a["na_items_to_override"] = parseOption(makeDictFromCommaSepString, arg, value)
         elif arg == "--names-only":
             a["only_return_file_names"] = True
         elif arg == "--no-header":
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index 9f2f6f4..9fe9f3e 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -54,6 +54,14 @@ def exitNicely(msg=""):
     sys.exit()
 
 
+def parseOption(parser, arg, value):
+    "Returns the parsed value of an option, or exits if it is not valid."
+    try:
+        return parser(value)
+    except Exception as e:
+        exitNicely("Invalid value for argument '%s': %s" % (arg, e))
+
+
 def parseArgs(args):
     """
     Parses arguments and returns dictionary.
@@ -90,17 +98,17 @@ def parseArgs(args):
         elif arg == "-v":
             a["var_ids"] = value.split(",")
         elif arg == "--ffi":
-            a["requested_ffi"] = int(value)
+            a["requested_ffi"] = parseOption(int, arg, value)
         elif arg == "-f":
             a["float_format"] = value
         elif arg == "-d":
             a["delimiter"] = value
         elif arg == "-l":
-            a["size_limit"] = int(value)
+            a["size_limit"] = parseOption(int, arg, value)
         elif arg == "-e":
             a["exclude_vars"] = value.split(",")
         elif arg == "--overwrite-metadata":
-            a["na_items_to_override"] = makeDictFromCommaSepString(value)
+            a["na_items_to_override"] = parseOption(makeDictFromCommaSepString, arg, value)
         elif arg == "--names-only":
             a["only_return_file_names"] = True
         elif arg == "--no-header":
-- 
2.43.0


From 0bec1a92f778bbcc3e338123db8a4b2cd2ae2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 55/77] fix: na2nc names its output as convertNAToNC does

---
 nappy/script/na2nc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index 316d563..1d39ce9 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -107,9 +107,7 @@ def parseArgs(args):
         exitNicely("Please provide argument '-i <na_file>'")
 
     if not a["nc_file"]:
-        fn = a["na_file"]
-        if fn[-3:] == ".na": fn = fn[:-3]
-        nc_file = fn + ".nc"
+        nc_file = nappy.getFileNameWithNewExtension(a["na_file"], "nc")
         print("Auto-generating output file name:", nc_file)
         a["nc_file"] = nc_file
 
-- 
2.43.0


From f9e2d01c1eae596ed36e5fe75bec1838cc26b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 56/77] fix: nc2csv always writes commas, to a .csv file by
 default

---
 nappy/script/nc2csv.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index 89a166d..26b786c 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -73,12 +73,11 @@ def parseArgs(args):
     a["var_ids"] = None
     a["requested_ffi"] = None
     a["float_format"] = nappy.default_float_format
-    a["delimiter"] = nappy.default_delimiter
     a["size_limit"] = None
     a["exclude_vars"] = []
     a["na_items_to_override"] = {}
     a["only_return_file_names"] = False
-    a["na_file"] = None
+    a["csv_file"] = None
     a["no_header"] = False
     a["annotation"] = False
 
@@ -93,7 +92,7 @@ def parseArgs(args):
         if arg == "-i":
             a["nc_file"] = value
         elif arg == "-o":
-            a["na_file"] = value
+            a["csv_file"] = value
         elif arg == "-v":
             a["var_ids"] = value.split(",")
         elif arg == "--ffi":
@@ -101,7 +100,7 @@ def parseArgs(args):
         elif arg == "-f":
             a["float_format"] = value
         elif arg == "-d":
-            a["delimiter"] = value
+            exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
         elif arg == "-l":
             a["size_limit"] = parseOption(int, arg, value)
         elif arg == "-e":
@@ -132,7 +131,7 @@ def nc2csv(args=None):
         args = sys.argv[1:]
 
     arg_dict = parseArgs(args)
-    csv_files = nappy.convertNCToNA(**arg_dict)
+    csv_files = nappy.convertNCToCSV(**arg_dict)
 
     # If user only wants files then only give them that
     if arg_dict["only_return_file_names"]:
@@ -149,8 +148,4 @@ def nc2csv(args=None):
 
 if __name__ == "__main__":
     args = sys.argv[1:]
-    if "-d" in args:
-        exitNicely("nc2csv.py does not accept the -d argument as the delimiter is fixed as a comma, try using nc2na.py instead.")
-
-    args.extend(["-d", ","])
     nc2csv(args)
\ No newline at end of file
-- 
2.43.0


From 83830f9d63d54bfbd735c90550c55534ed7d716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 57/77] fix: nc2na takes the documented "\t" as a tab

---
 nappy/script/nc2na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index 9fe9f3e..fa12623 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -102,7 +102,7 @@ def parseArgs(args):
         elif arg == "-f":
             a["float_format"] = value
         elif arg == "-d":
-            a["delimiter"] = value
+            a["delimiter"] = value.replace("\\t", "\t")
         elif arg == "-l":
             a["size_limit"] = parseOption(int, arg, value)
         elif arg == "-e":
-- 
2.43.0


From 80ea51fe24e44dc892ebf48fa30e11c9fa774f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 58/77] fix: the console scripts do not exit with a failure
 status after success

---
 nappy/script/na2nc.py  | 4 +++-
 nappy/script/nc2csv.py | 4 +++-
 nappy/script/nc2na.py  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nappy/script/na2nc.py b/nappy/script/na2nc.py
index 1d39ce9..75c7c14 100755
--- a/nappy/script/na2nc.py
+++ b/nappy/script/na2nc.py
@@ -120,7 +120,9 @@ def na2nc(args=None):
     """
 
     if args is None:
-        args = sys.argv[1:]
+        # Run as a console script, which takes any value returned for a failure
+        na2nc(sys.argv[1:])
+        return
 
     arg_dict = parseArgs(args)
     nc_file = nappy.convertNAToNC(**arg_dict)
diff --git a/nappy/script/nc2csv.py b/nappy/script/nc2csv.py
index 26b786c..b2da8b7 100755
--- a/nappy/script/nc2csv.py
+++ b/nappy/script/nc2csv.py
@@ -128,7 +128,9 @@ def nc2csv(args=None):
     """
 
     if args is None:
-        args = sys.argv[1:]
+        # Run as a console script, which takes any value returned for a failure
+        nc2csv(sys.argv[1:])
+        return
 
     arg_dict = parseArgs(args)
     csv_files = nappy.convertNCToCSV(**arg_dict)
diff --git a/nappy/script/nc2na.py b/nappy/script/nc2na.py
index fa12623..2bd84a8 100755
--- a/nappy/script/nc2na.py
+++ b/nappy/script/nc2na.py
@@ -130,7 +130,9 @@ def nc2na(args=None):
     """
 
     if args is None:
-        args = sys.argv[1:]
+        # Run as a console script, which takes any value returned for a failure
+        nc2na(sys.argv[1:])
+        return
 
     arg_dict = parseArgs(args)
     na_files = nappy.convertNCToNA(**arg_dict)
-- 
2.43.0


From c6995ef28232e8a8cab95b9edde5f3b4c78b79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 59/77] fix: NetCDF files are closed when they have been read

---
 nappy/nc_interface/nc_to_na.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/nc_interface/nc_to_na.py b/nappy/nc_interface/nc_to_na.py
index 0ab3eb9..bf37623 100644
--- a/nappy/nc_interface/nc_to_na.py
+++ b/nappy/nc_interface/nc_to_na.py
@@ -92,7 +92,7 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
                     if exclude_bounds and var_id in bounds_vars:
                         continue
 
-                    da = ds[var_id]
+                    da = ds[var_id].load()
 
                     # Check whether singleton variable, if so create variable                   
                     if hasattr(da, "shape") and da.shape == ():
@@ -103,4 +103,5 @@ class NCToNA(nappy.nc_interface.xarray_to_na.XarrayToNA):
                     xr_variables.append(da)
 
         global_attrs = ds.attrs.items()
+        ds.close()    # so that others can write to the file
         return (xr_variables, global_attrs)
-- 
2.43.0


From fa5f1774f1d88f7682f65b1c9e338dce2060cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 60/77] fix: compareNA works under Python 3 and returns the
 result of the comparison

---
 nappy/utils/compare_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index ae431bf..0507ca3 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -63,7 +63,7 @@ def compareNA(i1, i2, **kwargs):
     **kwargs are forwarded as dictionary to compNAFiles().
     """
     if os.path.isfile(i1):
-        apply(compNAFiles, (i1, i2), kwargs)
+        return compNAFiles(i1, i2, **kwargs)
     elif os.path.isdir(i1):
         compDirs(i1, i2)
     else:
@@ -251,7 +251,7 @@ def parseArgs(args):
 def main(args):
     "Main controller."
     files, arg_dict = parseArgs(args)
-    apply(compareNA, files, arg_dict) 
+    compareNA(*files, **arg_dict)
    
  
 if __name__=="__main__":
-- 
2.43.0


From 260b10a5b64878cf59e9d54e822ccd6e623fc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 61/77] fix: a comparison of NASA Ames files counts differences
 in the header and in the number of lines

Lines that are split differently by the two delimiters, such as those with dates, are compared by their items.
---
 nappy/utils/compare_na.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index 0507ca3..d14fad6 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -99,13 +99,13 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
         items2 = l2[i].split(delimiter_2)
         
         if len(items1) != len(items2):
-            # Check that space delimiter hasn't just split identical lines to different lengths
-            if len(items1) == 1 and items1[0].split() == items2:
-                continue
-            elif len(items2) == 1 and items2[0].split() == items1:
-                continue
-            else:
-                same = False
+            # Check that one delimiter hasn't just split identical lines to different lengths
+            # (such as that of dates, which are delimited by spaces in any file)
+            items1 = l1[i].replace(delimiter_1 or " ", " ").split()
+            items2 = l2[i].replace(delimiter_2 or " ", " ").split()
+
+        if len(items1) != len(items2):
+            same = False
         else: 
             if not number_clever:
                 if items1 != items2:
@@ -189,21 +189,24 @@ def compNAFiles(f1, f2, header=True, body=True, number_clever=True, approx_equal
         print(">>> %s header:" % f1)
         print("<<< %s header:" % f2)
         same = compareSections(header1, header2, number_clever, approx_equal, delimiter_1, delimiter_2) 
-        if same:
-            print("HEADERS ARE IDENTICAL.")
         if len(header1) != len(header2):
+            same = False
             print("Header lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(header1), f2, len(header2)))
+        if same:
+            print("HEADERS ARE IDENTICAL.")
 
     if body:
         print("Comparing bodies:")
         print(">>> %s body:" % f1)
         print("<<< %s body:" % f2)
-        same = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
-        if same:
-            print("BODIES ARE IDENTICAL.")
+        same_body = compareSections(body1, body2, number_clever, approx_equal, delimiter_1, delimiter_2)
         if len(body1) != len(body2):
+            same_body = False
             print("Body lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(body1), f2, len(body2)))
-       
+        if same_body:
+            print("BODIES ARE IDENTICAL.")
+        same = same and same_body
+
     return same
 
 
-- 
2.43.0


From 8b3d279e0af88394d0b394b1183825cfd80971f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 62/77] fix: identical lines without letters are the same under
 different delimiters

---
 nappy/utils/compare_na.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index d14fad6..f9173f8 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -44,7 +44,6 @@ from nappy.utils.compare import *
 equality_threshold = 0.01 # i.e. within 1% of each other
 file_exclusion_patterns = (r".*CSV.*", r".*svn.*", r"\..*", r".*\.pyc$", r".*~$") 
 file_exclusions = [re.compile(pattn) for pattn in file_exclusion_patterns]
-letter_match = re.compile(r"[a-zA-Z]")
 
 
 def exitNicely(msg):
@@ -89,11 +88,9 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
         l1[i] = l1[i].strip()
         l2[i] = l2[i].strip()
 
-        # If letters found in line then not going to be numeric 
-        # Hence we can just test if lines are identical
-        if letter_match.search(l1[i]):
-            if l1[i] == l2[i]:
-                continue
+        # Identical lines are the same whatever the delimiters make of them (as in comments)
+        if l1[i] == l2[i]:
+            continue
 
         items1 = l1[i].split(delimiter_1)
         items2 = l2[i].split(delimiter_2)
-- 
2.43.0


From a5b069a9d0f875373962eab1f976be0f3642342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 63/77] fix: approximate comparison of NASA Ames files reports
 differences above the threshold

---
 nappy/utils/compare_na.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/utils/compare_na.py b/nappy/utils/compare_na.py
index f9173f8..93eff7e 100644
--- a/nappy/utils/compare_na.py
+++ b/nappy/utils/compare_na.py
@@ -118,14 +118,14 @@ def compareSections(l1, l2, number_clever=True, approx_equal=False,
 
                     if a != b:
                         
-                        if approx_equal:
+                        if approx_equal and not isinstance(a, str):
                         # Check to see if testing for approximate equality
                             if a == 0:  a = 0.000000001
                             if b == 0:  b = 0.000000001
                             divided = a/b
-                            if divided < 1:
+                            if abs(divided) < 1:
                                 divided = b/a
-                            if (1 - divided) > equality_threshold:
+                            if not abs(1 - divided) <= equality_threshold:
                                 same = False
                                 break  
                         else: 
-- 
2.43.0


From 8472fd9f83e2a4a17cfff76bea11e55fce665c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 64/77] fix: convert dictionaries holding integer data to
 NetCDF

The missing value need not be representable as an integer, and a file
holding the same numbers is converted to floating point numbers.
---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 87b6ba7..1449e3a 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -262,7 +262,7 @@ class NADictToXarrayObjects:
         log.debug(msg)
         self.output_message.append(msg)
 
-        array = np.array(self.na_file_obj.V[var_number])
+        array = np.array(self.na_file_obj.V[var_number], dtype=float)
 
         if miss:
             array = np.ma.masked_array(array, fill_value=miss)
@@ -332,7 +332,7 @@ class NADictToXarrayObjects:
              
         (var_name, units, miss, scal) = self.na_file_obj.getAuxVariable(avar_number)
 
-        array = np.array(self.na_file_obj.A[avar_number])
+        array = np.array(self.na_file_obj.A[avar_number], dtype=float)
         if miss:
             array = np.ma.masked_array(array, fill_value=miss)
 
-- 
2.43.0


From 6722f9a032cfd78f2406b25d23681887aa2f23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 65/77] fix: report scalar times held as datetime64 as times

They were reported as a number of nanoseconds.
---
 nappy/utils/common_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 5f28005..0a70268 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -274,6 +274,9 @@ def get_rank_zero_array_value(arr):
     elif arr.dtype.type is np.object_:
         # Such as times and strings of variable length
         return str(arr)
+    elif np.issubdtype(arr.dtype, np.datetime64):
+        # In the same form as other times
+        return str(arr.astype("datetime64[us]").item())
     else:
         return float(arr) 
 
-- 
2.43.0


From fa0c6991fd5de4ec724120c40399f9035a48a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 66/77] fix: write labels that hold percent signs in FFI 1001
 files

The labels of a local annotations file were taken for format strings.
---
 nappy/na_file/na_file_1001.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/na_file/na_file_1001.py b/nappy/na_file/na_file_1001.py
index d5892a4..25f26fe 100644
--- a/nappy/na_file/na_file_1001.py
+++ b/nappy/na_file/na_file_1001.py
@@ -43,9 +43,9 @@ class NAFile1001(nappy.na_file.na_file.NAFile):
         """        
         self._writeCommonHeader()
         annotation = getAnnotation("DX", self.annotation, delimiter = self.delimiter)
-        self.header.write((annotation + "%s" * self.NIV + "\n") % tuple(self.DX))
+        self.header.write(annotation + ("%s" * self.NIV + "\n") % tuple(self.DX))
         annotation = getAnnotation("XNAME", self.annotation, delimiter = self.delimiter)
-        self.header.write((annotation + "%s\n") * self.NIV % tuple(self.XNAME))
+        self.header.write(annotation + ("%s\n" * self.NIV) % tuple(self.XNAME))
         self._writeVariablesHeaderSection()
         self._writeComments()
         self._fixHeaderLength()
-- 
2.43.0


From 33f450f486f4f681df2de0ac437395cd4585abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 67/77] fix: strip annotations that hold a circumflex

An annotation such as {kg m^-2} was taken for part of the recorded item.
---
 nappy/utils/right_strip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/utils/right_strip.py b/nappy/utils/right_strip.py
index cc2fb44..335177f 100644
--- a/nappy/utils/right_strip.py
+++ b/nappy/utils/right_strip.py
@@ -19,7 +19,7 @@ Out: Tout (C)
 
 import re
 
-rstrip_regex = re.compile(r"^(.+)\{[^{^}]*\}\s*$")
+rstrip_regex = re.compile(r"^(.+)\{[^{}]*\}\s*$")
 
 
 def rightStripCurlyBraces(line):
-- 
2.43.0


From 89927c87bbffaf80a7ac8606c4e3212de429a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 68/77] fix: annotate each line once whatever characters it
 holds

A form feed or another separator within a name or comment was taken for a
line end, so that the annotation was repeated in the middle of the line.
---
 nappy/utils/common_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index 0a70268..f01ada6 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -211,7 +211,8 @@ def annotateLines(item_name, annotate, delimiter, lines):
     Takes item_name to look up, delimiter and item to render and returns full line.
     """
 
-    split_lines = lines.splitlines(1)
+    # Split at line ends only: str.splitlines() would also split at form feeds and the like
+    split_lines = StringIO(lines).readlines()
     output = ""
 
     count = 1
-- 
2.43.0


From 3d23aa2629ebbfc6ef3f912d656e0cf6795314e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 69/77] fix: split attribute texts at line ends only

Lines were also split at form feeds and other separators, so that comment
lines holding those did not survive a conversion to NetCDF and back.
---
 nappy/nc_interface/na_content_collector.py | 6 +++---
 nappy/nc_interface/xarray_to_na.py         | 2 +-
 nappy/utils/common_utils.py                | 9 ++++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/nappy/nc_interface/na_content_collector.py b/nappy/nc_interface/na_content_collector.py
index 66e45c6..d1ff74c 100644
--- a/nappy/nc_interface/na_content_collector.py
+++ b/nappy/nc_interface/na_content_collector.py
@@ -739,7 +739,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in NCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.splitlines()
+                lines = nappy.utils.common_utils.splitLines(c)
                 for line in lines:
                     if line != lines[0]: 
                         line = "  " + line
@@ -749,7 +749,7 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         for c in SCOM:
             if c.strip() not in ("", " ", "  "):
                 # Replace new lines within one attribute with a newline and tab so easier to read
-                lines = c.splitlines()
+                lines = nappy.utils.common_utils.splitLines(c)
 
                 for line in lines:
                     if line != lines[0]: 
@@ -827,4 +827,4 @@ class NAContentCollector(nappy.na_file.na_core.NACore):
         """
         Returns text with all line breaks replaced by blanks.
         """
-        return "  ".join(str(text).splitlines())
+        return "  ".join(nappy.utils.common_utils.splitLines(str(text)))
diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 6518b3d..1986ea8 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -323,7 +323,7 @@ class XarrayToNA:
                         raise ValueError(f"Cannot overwrite {len(this_na_dict[key])} names in '{key}' with {len(new_item)} names.")
 
                     if key in ("SCOM", "NCOM") and isinstance(new_item, str):
-                        new_item = new_item.splitlines()
+                        new_item = nappy.utils.common_utils.splitLines(new_item)
 
                     # Do specific overwrite for comments by inserting lines at start
                     if key in ("SCOM", "NCOM"):
diff --git a/nappy/utils/common_utils.py b/nappy/utils/common_utils.py
index f01ada6..5a84021 100644
--- a/nappy/utils/common_utils.py
+++ b/nappy/utils/common_utils.py
@@ -211,7 +211,6 @@ def annotateLines(item_name, annotate, delimiter, lines):
     Takes item_name to look up, delimiter and item to render and returns full line.
     """
 
-    # Split at line ends only: str.splitlines() would also split at form feeds and the like
     split_lines = StringIO(lines).readlines()
     output = ""
 
@@ -235,6 +234,14 @@ def annotateLine(item_name, annotate, delimiter, line, count=None):
     return line
 
 
+def splitLines(text):
+    """
+    Splits text at line ends of any kind. Unlike str.splitlines() it does not
+    split at form feeds and the like, which may occur within a line.
+    """
+    return [line.rstrip("\n") for line in StringIO(text, newline=None)]
+
+
 def stripQuotes(s):
     "Strips extra quotes"
     if type(s) != type("string"): s  = str(s)
-- 
2.43.0


From 941d7406aabd1310a5f265b30c072aaa3c82eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 70/77] fix: keep integer attributes that need more than 32
 bits

---
 nappy/nc_interface/na_to_nc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nappy/nc_interface/na_to_nc.py b/nappy/nc_interface/na_to_nc.py
index f2c99b7..48c6020 100644
--- a/nappy/nc_interface/na_to_nc.py
+++ b/nappy/nc_interface/na_to_nc.py
@@ -69,7 +69,7 @@ class NAToNC(nappy.nc_interface.na_to_xarray.NADictToXarrayObjects):
         returns them.
         """
         def to_np_int(_value):
-            return np.int32(_value)
+            return np.int32(_value) if -2**31 <= _value < 2**31 else np.int64(_value)
 
         value = dct.get(key)
 
-- 
2.43.0


From 2a62184e8d241ef8d13c7b59bab30d4d4b4b910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 71/77] fix: rename auxiliary variables without a name by their
 ID

---
 nappy/nc_interface/na_to_xarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nappy/nc_interface/na_to_xarray.py b/nappy/nc_interface/na_to_xarray.py
index 1449e3a..cdf7707 100644
--- a/nappy/nc_interface/na_to_xarray.py
+++ b/nappy/nc_interface/na_to_xarray.py
@@ -365,8 +365,8 @@ class NADictToXarrayObjects:
             var_name = f"naAuxVariable_{avar_number}"
 
         # Check if mapping provided for renaming this variable
-        if var_name in self.rename_variables.keys():
-            var_name = self.rename_variables[var_name]
+        if var_name.lower() in self.rename_variables.keys():
+            var_name = self.rename_variables[var_name.lower()]
 
         var.attrs["long_name"] = var.attrs["title"] = var_name
         var.name = nappy.utils.common_utils.safe_name(var_name)
-- 
2.43.0


From a8dee7ff585a83218c06da241a1cf3b896c4b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 72/77] fix: convert NetCDF files that hold arrays of text

---
 nappy/nc_interface/xarray_to_na.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/nappy/nc_interface/xarray_to_na.py b/nappy/nc_interface/xarray_to_na.py
index 1986ea8..5b4350c 100644
--- a/nappy/nc_interface/xarray_to_na.py
+++ b/nappy/nc_interface/xarray_to_na.py
@@ -90,6 +90,9 @@ class XarrayToNA:
         # Convert any singleton variables to Xarray variables
         variables = self._convertSingletonVars(self.xr_variables)
 
+        # Arrays of text do not fit into the supported formats
+        variables = self._removeTextVars(variables)
+
         # Re-order variables if they have the attribute "nasa_ames_var_number" which means they came
         # from a NASA Ames file originally
         variables = self._reorderVars(variables)
@@ -155,6 +158,26 @@ class XarrayToNA:
 
         return vars
 
+    def _removeTextVars(self, variables):
+        """
+        Returns the list of variables without those that hold arrays of text.
+        """
+        vars = []
+
+        for variable in variables:
+            values = variable.values
+            kind = values.dtype.kind
+
+            if values.ndim > 0 and (kind in "SU" or (kind == "O" and any(isinstance(x, (str, bytes)) for x in values.flat))):
+                msg = "\nVariable holds text and is not written: %s" % variable.name
+                if DEBUG: log.debug(msg)
+                self.output_message.append(msg)
+                continue
+
+            vars.append(variable)
+
+        return vars
+
     def _reorderVars(self, variables):
         """
         Returns a reordered list of variables. Any that have the attribute 
-- 
2.43.0


From 713e90abd0ec1733dc6b6508afee9762b6484e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 73/77] fix: comparing directories reports files found in one
 only and different lengths

---
 nappy/utils/compare.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nappy/utils/compare.py b/nappy/utils/compare.py
index 9590d7a..e489ccb 100644
--- a/nappy/utils/compare.py
+++ b/nappy/utils/compare.py
@@ -79,6 +79,13 @@ def compDirs(d1, d2):
 
         compFiles(d1f, d2f)
 
+    for item in os.listdir(d2):
+
+        d1f = os.path.join(d1, item)
+
+        if not os.path.exists(d1f):
+            print("WARNING: cannot find item:", d1f)
+
 
 def compFiles(f1, f2):
     """
@@ -115,6 +122,9 @@ def compFiles(f1, f2):
             print(">>>", l1[i])
             print("<<<", l2[i])
 
+    if len(l1) != len(l2):
+        print("File lengths differ:\n>>> %s: %s\n<<< %s: %s" % (f1, len(l1), f2, len(l2)))
+
     
 if __name__=="__main__":
 
-- 
2.43.0


From f621496edf8bd0394986ed34a67dbd4629f78e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 74/77] fix: refuse a number of points in the data section that
 is no whole number

---
 nappy/na_file/na_file_2110.py | 2 +-
 nappy/na_file/na_file_2160.py | 2 +-
 nappy/na_file/na_file_2310.py | 2 +-
 nappy/utils/text_parser.py    | 9 +++++++++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_2110.py b/nappy/na_file/na_file_2110.py
index d04a378..c7f77ce 100644
--- a/nappy/na_file/na_file_2110.py
+++ b/nappy/na_file/na_file_2110.py
@@ -87,7 +87,7 @@ class NAFile2110(nappy.na_file.na_file_2010.NAFile2010):
         self.X[ivar_count].append(x)
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([])  
-        self.NX.append(int(aux[0]))
+        self.NX.append(nappy.utils.text_parser.wholeNumber(aux[0]))
         return rtlines
 
     def _readData2(self, datalines, ivar_count):
diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index 7b539a5..d99dec2 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -111,7 +111,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
         
         # Get NX and Non-character AUX vars
         (aux, datalines) = nappy.utils.text_parser.readItemsFromUnknownLines(datalines, (self.NAUXV - self.NAUXC), float)
-        self.NX.append(int(aux[0]))
+        self.NX.append(nappy.utils.text_parser.wholeNumber(aux[0]))
 
         count = 0
         for a in range(self.NAUXV - self.NAUXC):
diff --git a/nappy/na_file/na_file_2310.py b/nappy/na_file/na_file_2310.py
index 4c370ac..97c9a89 100644
--- a/nappy/na_file/na_file_2310.py
+++ b/nappy/na_file/na_file_2310.py
@@ -79,7 +79,7 @@ class NAFile2310(nappy.na_file.na_file_2110.NAFile2110):
 
         # Set up list to take second changing independent variable
         self.X[ivar_count].append([aux[1]])
-        self.NX.append(int(aux[0]))
+        self.NX.append(nappy.utils.text_parser.wholeNumber(aux[0]))
         self.DX.append(aux[2])
         return rtlines
    
diff --git a/nappy/utils/text_parser.py b/nappy/utils/text_parser.py
index a24ef1c..c9cc186 100644
--- a/nappy/utils/text_parser.py
+++ b/nappy/utils/text_parser.py
@@ -104,3 +104,12 @@ def readItemsFromUnknownLines(object, nitems, rttype=str):
         return rtitems, object
     else:
         return rtitems
+
+def wholeNumber(value):
+    """
+    Returns the count ``value``, read as a real, as an integer. Raises an
+    error if it is not a whole number or is negative.
+    """
+    if value < 0 or value != int(value):
+        raise Exception("Not a number of items: " + str(value))
+    return int(value)
-- 
2.43.0


From 5f6d178fd228617f92ba4042ef00869046ad5e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 75/77] fix: make the translation from FFI 2010 to 2110 work

---
 nappy/utils/ffi_translator.py | 42 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/nappy/utils/ffi_translator.py b/nappy/utils/ffi_translator.py
index 828d6ae..8c3502f 100644
--- a/nappy/utils/ffi_translator.py
+++ b/nappy/utils/ffi_translator.py
@@ -14,10 +14,8 @@ main data blocks before the actual data).
 # Import standard library modules
 import copy
 
-# Import local modules
-import nappy.utils
-
-default_missing_value = nappy.utils.getConfigDict()["main"]["default_missing_value"]
+# As in NASA Ames files of FFI 2110 converted from NetCDF
+default_missing_value = -9999.999
 
 
 def translate2010To2110(na_dict):
@@ -28,19 +26,23 @@ def translate2010To2110(na_dict):
     the "ragged array" structures that are allowed.
     """
     n = copy.deepcopy(na_dict)
-
-    # First need to adjust auxiliary variable definitions and array
-    nx1 = n.NX[0]
-    n.NAUXV = n.NAUXV + 1
-    axis_1_name = n.XNAMES[0]
-    n.ANAMES = ["Number of %s values recorded in subsequent data records" % axis_1_name] + n.ANAMES
-    n.ASCAL.insert(0, 1.0)
-    n.AMISS.insert(0, default_missing_value)
-   
-    return n   # did it work?
-
-
-
- 
-
-    
\ No newline at end of file
+    n["FFI"] = 2110
+
+    # Every mark has all values of the bounded independent variable, those implied included
+    marks, values = n["X"]
+    nx1 = n["NX"][0]
+    if n["NXDEF"][0] != nx1:
+        values = [values[0] + i * n["DX"][1] for i in range(nx1)]
+
+    n["X"] = [[mark, values[:]] for mark in marks]
+    n["NX"] = [nx1] * len(marks)
+    del n["NXDEF"]
+
+    # The number of values becomes the first auxiliary variable
+    axis_1_name = n["XNAME"][1]
+    n["NAUXV"] = n.get("NAUXV", 0) + 1
+    n["ANAME"] = ["Number of %s values recorded in subsequent data records" % axis_1_name] + n.get("ANAME", [])
+    n["ASCAL"] = [1.0] + n.get("ASCAL", [])
+    n["AMISS"] = [default_missing_value] + n.get("AMISS", [])
+    n["A"] = [[nx1] * len(marks)] + n.get("A", [])
+    return n
-- 
2.43.0


From 287195e68651b7581365df6c8d24031cdba24936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 76/77] fix: keep commas at the end of character values in FFI
 2160 files

---
 nappy/na_file/na_file_2160.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file_2160.py b/nappy/na_file/na_file_2160.py
index d99dec2..e4acb42 100644
--- a/nappy/na_file/na_file_2160.py
+++ b/nappy/na_file/na_file_2160.py
@@ -138,7 +138,7 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
 
             # Write Independent variable mark and auxiliary variables
             var_string = "%s" % self.X[m][0]
-            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+            self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ")))
             var_string = ""
 
             for a in range(self.NAUXV - self.NAUXC):
@@ -147,8 +147,8 @@ class NAFile2160(nappy.na_file.na_file_2110.NAFile2110):
             self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
 
             for a in range(self.NAUXC):
-                var_string = (("%s" + self.delimiter) % self.A[(self.NAUXV - self.NAUXC) + a][m])
-                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ,")))
+                var_string = "%s" % self.A[(self.NAUXV - self.NAUXC) + a][m]
+                self.file.write(wrapLine("Data", self.annotation, self.delimiter, "%s\n" % var_string.rstrip(" ")))
 
             # Write second independant variable and dependant variables
             for p in range(self.NX[m]):
-- 
2.43.0


From 89bc46a7a6a7dbf99f197465c377837db2978f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:55 +0000
Subject: [PATCH 77/77] fix: leave nothing of a failed write in the file, so
 that it can be repeated

---
 nappy/na_file/na_file.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nappy/na_file/na_file.py b/nappy/na_file/na_file.py
index 1286b46..2cd3f7d 100644
--- a/nappy/na_file/na_file.py
+++ b/nappy/na_file/na_file.py
@@ -118,10 +118,19 @@ class NAFile(nappy.na_file.na_core.NACore):
         self._parseDictionary()
         self.header = StringIO()
 
-        if not no_header:
-            self.writeHeader()
+        try:
+            if not no_header:
+                self.writeHeader()
+
+            self.writeData()
+        except Exception:
+            # Leave nothing of a failed write in the file
+            self.file.flush()
+            if self.file.seekable():
+                self.file.seek(0)
+                self.file.truncate()
+            raise
 
-        self.writeData()
         self.file.flush()
         
         # Set flag to make sure cannot try and write more data
-- 
2.43.0

